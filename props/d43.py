"""D43 the screen shows the state of the game"""
import re
from props.board import truth
from props.screen import Fake, Event

BOUNDS = {'quick': 'boards of 6 kinds with 0-2 ghosts and capsules, every course of up to 5 moves, any zoom (a real number) for '
                   'courses of up to 3 moves, any frame time (a real number); walls: every combination of the 8 neighbours of a cell; '
                   'a 9x5 board with 4 ghosts and courses of 16 moves, every fifth one any',
          'thorough': 'courses of up to 7 moves, 4 with any zoom'}
OUTSIDE = 'what tkinter makes of the canvas; capture mode (D46); more than 5 ghosts; drawing a state in the middle of a game'
ASSUMPTIONS = ['tkinter is replaced by a stand-in keeping the canvas items as data (props/screen.py)']

WHITE = '#ffffff'
BLACK = '#000000'
PAC = '#ffff3d'
WALL = '#0033ff'
GHOSTS = ['#e50000', '#004ce5', '#f96811', '#19bfb2', '#ff9900', '#6621e8']
BASE = {'East': 0, 'North': 90, 'West': 180, 'South': 270, 'Stop': 0}
LOOK = {'North': (0, -1), 'South': (0, 1), 'East': (1, 0), 'West': (-1, 0), 'Stop': (0, 0)}
SHAPE = [(0, .3), (.25, .75), (.5, .3), (.75, .75), (.75, -.5), (.5, -.75), (-.5, -.75), (-.75, -.5), (-.75, .75), (-.5, .3), (-.25, .75)]


class Near:
    """comparison up to a hundredth of a pixel"""

    def __init__(self, S):
        self.S = S

    def __call__(self, a, b):
        d = a - b
        return self.S.pred(lambda: (d < 0.01) & (d > -0.01)) if not isinstance(d, (int, float)) else abs(d) < 0.01

    def all(self, a, b):
        return len(a) == len(b) and all(truth(self(x, y)) for x, y in zip(a, b))


class Screen:
    """what should be seen, and what is"""

    def __init__(self, S, fake, h, g):
        self.S, self.fake, self.h, self.g = S, fake, h, g
        self.near = Near(S)

    def at(self, p):
        return (p[0] + 1) * self.g, (self.h - p[1]) * self.g

    def box(self, c, r):
        return [c[0] - r - 1, c[1] - r - 1, c[0] + r, c[1] + r]

    def check(self, food, capsules, figures, score, late=''):
        """figures: (is pacman, position, direction, scared) by number"""
        S, near, g = self.S, self.near, self.g
        arcs = [i for i in self.fake.items('arc') if i.opts.get('style') == 'pieslice']
        dots = [i for i in arcs if i.opts['fill'] == WHITE and i.opts.get('width') == 1]
        round_ = [i for i in arcs if i not in dots]
        want = [self.box(self.at(c), g * 0.1) for c in food] + [self.box(self.at(c), g * 0.25) for c in capsules]
        S.check(len(dots) == len(want), 'a-dot-for-each-pellet-and-capsule' + late, lambda: (food, capsules, dots))
        for w in want:
            S.check(any(near.all(i.coords, w) for i in dots), 'dots-in-their-cells' + late, lambda: (food, capsules, dots))
        S.check(all(i.opts['extent'] == 359 and i.opts['outline'] == WHITE for i in dots), 'full-dots' + late)
        bodies = [i for i in self.fake.items('polygon') if len(i.coords) > 8]
        ghosts = [(k, f) for k, f in enumerate(figures) if not f[0]]
        S.check(len(bodies) == len(ghosts), 'a-body-for-each-ghost' + late, lambda: bodies)
        mouths = [i for i in round_ if i.opts['fill'] == PAC]
        eyes = [i for i in round_ if i.opts['fill'] in (WHITE, BLACK)]
        S.check(len(mouths) == len(figures) - len(ghosts) and len(eyes) == 4 * len(ghosts) and len(round_) == len(mouths) + len(eyes),
                'all-figures-drawn' + late, lambda: round_)
        for k, f in enumerate(figures):
            c = self.at(f[1])
            if f[0]:
                m = mouths.pop(0)
                S.check(near.all(m.coords, self.box(c, g * 0.5)), 'pacman-in-his-place' + late, lambda: (f, m))
                S.check(abs(m.opts['extent'] - 330) < 0.01 and abs((m.opts['start'] - BASE[f[2]] - 15) % 360) < 0.01
                        and m.opts['outline'] == PAC, 'mouth-in-his-direction' + late, lambda: (f, m))
            else:
                b = bodies.pop(0)
                want = [x for p in SHAPE for x in (c[0] + p[0] * g * 0.65, c[1] + p[1] * g * 0.65)]
                S.check(near.all(b.coords, want), 'ghost-in-its-place' + late, lambda: (f, b))
                col = WHITE if f[3] else GHOSTS[k]
                S.check(b.opts['fill'] == col and b.opts['outline'] == col, 'ghost-coloured-by-its-timer' + late, lambda: (f, b))
                mine, eyes = eyes[:4], eyes[4:]
                lx, ly = LOOK[f[2]]
                u = g * 0.65
                for side, white, r, share in ((-1, True, .2, 1.5), (1, True, .2, 1.5), (-1, False, .08, 1), (1, False, .08, 1)):
                    p = (c[0] + u * (0.3 * side + 0.2 * lx / share), c[1] - u * (0.3 - 0.2 * ly / share))
                    S.check(any(near.all(e.coords, self.box(p, u * r)) and e.opts['fill'] == (WHITE if white else BLACK)
                                and e.opts['extent'] == 359 for e in mine), 'eyes-look-ahead' + late, lambda: (f, mine))
        text = self.fake.items('text')
        S.check(len(text) == 1 and re.fullmatch(r'SCORE: *(-?\d+)', text[0].opts['text'])
                and int(text[0].opts['text'].split()[-1]) == score, 'score-shown' + late, lambda: (score, text))


def figures(data, old=None, moved=None):
    out = list(old or [None] * len(data.agentStates))
    for i, a in enumerate(data.agentStates):
        if moved is None or moved == i:
            out[i] = (a.isPacman, a.getPosition(), a.getDirection(), truth(a.scaredTimer > 0))
    return out


BOARDS = [['%%%%%%', '%P.oG%', '%%%%%%'],
          ['%%%%%', '%. .%', '%oPG%', '%%%%%'],
          ['%%%%%%', '%G.P.%', '%%%%%%'],
          ['%%%%%', '%P..%', '%%%%%'],
          ['%%%%%', '%GP.%', '%Go.%', '%%%%%'],
          ['%%%%%%', '%Po.G%', '%%%%%%'],
          ['%%%%%%', '%PoG.%', '%%%%%%']]


def course(S, text, moves, g, gs, fake, nghosts=2, hide=lambda f: f):
    """plays any course and looks at the screen after each move"""
    import pacman
    import layout
    lay = layout.Layout(list(text))
    st = pacman.GameState()
    st.initialize(lay, nghosts)
    gs.initialize(st.data)
    win = fake.window
    S.check(len([w for w in fake.windows if w.alive]) == 1 and win.canvas is not None, 'one-window')
    near = Near(S)
    S.check(near.all(win.canvas.size, [(lay.width + 1) * g, (lay.height + 1) * g + 35]), 'window-fits-the-board', lambda: win.canvas.size)
    scr = Screen(S, fake, lay.height, g)
    figs = figures(st.data)

    def look(late=''):
        d = st.data
        scr.check([(x, y) for x in range(lay.width) for y in range(lay.height) if truth(d.food[x][y])], list(d.capsules), [hide(f) for f in figs], d.score,
                  late)
    look()
    walls = [repr(i) for i in fake.items() if i.opts.get('fill') == WALL or i.opts.get('outline') == WALL]
    done = []
    for n in range(moves):
        if truth(st.isWin()) or truth(st.isLose()):
            break
        k = n % st.getNumAgents()
        legal = sorted(st.getLegalActions(k))
        if not legal:
            break
        a = S.pick(f'move{n}', legal)
        st = st.generateSuccessor(k, a)
        done.append((k, a))
        shown = fake.canvas.shown
        gs.update(st.data)
        S.check(fake.canvas.shown > shown, 'screen-refreshed')
        figs = figures(st.data, figs, k)
        look('-later')
    S.check([repr(i) for i in fake.items() if i.opts.get('fill') == WALL or i.opts.get('outline') == WALL] == walls, 'walls-stay')
    gs.finish()
    S.check(not any(w.alive for w in fake.windows), 'window-closed')
    S.cover('eaten' if any(f[3] for f in figs) else 'plain')


def play(S):
    fake = Fake(S)
    import graphicsDisplay
    text = S.pick('board', BOARDS)
    course(S, text, S.deep(5, 7), 30.0, graphicsDisplay.PacmanGraphics(), fake)


play.covers = ('eaten', 'plain')


def zoom(S):
    """any size of the cells"""
    fake = Fake(S)
    import graphicsDisplay
    z = S.real('zoom', 0, 10, lo_open=True)
    S.assume(z > 0.5)
    course(S, S.pick('board', BOARDS), S.deep(3, 4), z * 30, graphicsDisplay.PacmanGraphics(zoom=z), fake)


def frames(S):
    """pacman glides from cell to cell within the frame time"""
    fake = Fake(S)
    import graphicsDisplay
    import pacman
    import layout
    t = S.real('time', -1, 1)
    gs = graphicsDisplay.PacmanGraphics(frameTime=t)
    lay = layout.Layout(['%%%%%', '%. .%', '% P %', '%.. %', '%%%%%'])
    st = pacman.GameState()
    st.initialize(lay, 0)
    gs.initialize(st.data)
    a = S.pick('move', sorted(st.getLegalActions(0)))
    new = st.generateSuccessor(0, a)
    me = [i for i in fake.items('arc') if i.opts['fill'] == PAC][0]
    seen, canvas = [], fake.canvas
    real = canvas.update_idletasks
    canvas.update_idletasks = lambda: (seen.append((list(me.coords), me.opts['start'], me.opts['extent'])), real())
    stepping = truth(t < 0)
    key = S.pick('key', ['q', 'space', 'space q'])
    before = S.choose('before', 3) if stepping else 0
    if stepping:
        # the key arrives after some waiting
        fake.later = [[] for _ in range(before)] + [[Event('<KeyPress>', k) for k in key.split()]]
    waits = fake.window.waits
    gs.update(new.data)
    p, q = st.getPacmanPosition(), new.getPacmanPosition()
    scr = Screen(S, fake, lay.height, 30.0)
    scr.check([c for c in new.getFood().asList()], [], figures(new.data), new.getScore())
    if stepping:
        S.check(not fake.later and not fake.queue, 'waits-for-a-key', lambda: (before, fake.later))
        S.check(truth(gs.frameTime == 0.1) if 'q' in key else truth(gs.frameTime == t), 'q-goes-on-playing', lambda: gs.frameTime)
    along = []
    for c, s, e in seen:
        if not along or along[-1] != c:
            along.append(c)
    pts = [((c[0] + c[2] + 1) / 60 - 1, lay.height - (c[1] + c[3] + 1) / 60) for c in along]
    moved = [x for x in pts if abs(x[0] - p[0]) + abs(x[1] - p[1]) > 1e-6]
    if truth(t > 0.01) or stepping:
        S.check(p == q or len(moved) == 4, 'in-four-frames', lambda: pts)
        total = 100 if stepping and 'q' in key else t * 1000 if not stepping else -t * 1000
        last = waits[-4:]
        S.check(truth(sum(last) <= total + 0.01) and truth(sum(last) > total - 4.01), 'within-the-frame-time', lambda: (t, waits))
    else:
        S.check(len(moved) <= 1 and not waits, 'at-once', lambda: (pts, waits))
    S.check(all(abs(x - p[0] - (q[0] - p[0]) * (i + 1) / len(moved)) < 1e-6 and abs(y - p[1] - (q[1] - p[1]) * (i + 1) / len(moved)) < 1e-6
                for i, (x, y) in enumerate(moved)), 'evenly-along-the-way', lambda: pts)
    S.cover('stepping' if stepping else 'playing')


frames.covers = ('stepping', 'playing')


def walls(S):
    """the outline of the walls: in each quarter of a wall cell a rounded corner, a straight line, an inner corner or nothing"""
    fake = Fake(S)
    import graphicsDisplay
    import game
    near = Near(S)
    w = game.Grid(5, 5)
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            w[2 + dx][2 + dy] = S.bool(f'w{dx}{dy}')
    edge = S.choose('edge', 3)
    z = S.real('zoom', 0, 10, lo_open=True)
    S.assume(z > 0.5)

    class L:
        pass

    gs = graphicsDisplay.PacmanGraphics(zoom=z)
    lay = L()
    lay.width = lay.height = 5
    gs.height = gs.width = 5
    gs.make_window(5, 5)
    # the middle cell alone; or with the border of the board cutting the neighbours off
    m = game.Grid(5, 5)
    if edge == 0:
        cell, m = (2, 2), w
    else:
        m = game.Grid(2, 2)
        cell = (0, 0) if edge == 1 else (1, 1)
        for x in (0, 1):
            for y in (0, 1):
                m[x][y] = w[2 + x - cell[0]][2 + y - cell[1]]
    gs.height = m.height
    start = len(fake.items())
    gs.drawWalls(m)
    items = fake.items()[start:]
    g = z * 30
    R = g * 0.15

    def wall(x, y):
        return 0 <= x < m.width and 0 <= y < m.height and truth(m[x][y])
    n = [0]
    used = []

    def found(kind, want, what, **opts):
        n[0] += 1
        for i in items:
            if i.kind == kind and not any(i is u for u in used) and i.opts.get('fill', '') == WALL \
                    and all(i.opts.get(k) == v for k, v in opts.items()) \
                    and all(truth((a - b < 2.01) & (b - a < 2.01)) for a, b in zip(i.coords, want)):
                used.append(i)
                return
        S.check(False, what, lambda: (want, items))
    every = 0
    for x in range(m.width):
        for y in range(m.height):
            if not wall(x, y):
                continue
            cx, cy = (x + 1) * g, (m.height - y) * g
            for sx, sy, a in ((1, 1, 0), (-1, 1, 90), (-1, -1, 180), (1, -1, 270)):
                h, v, d = wall(x + sx, y), wall(x, y + sy), wall(x + sx, y + sy)
                check = (x, y) == cell
                if not h and not v:
                    every += 1
                    if check:
                        found('arc', [cx - R, cy - R, cx + R, cy + R], 'corner-rounded', start=a, extent=91, style='arc')
                elif v and not h:
                    every += 1
                    if check:
                        found('line', [cx + sx * R, cy, cx + sx * R, cy - sy * g * 0.5], 'straight-up')
                elif h and not v:
                    every += 1
                    if check:
                        found('line', [cx, cy - sy * R, cx + sx * g * 0.5, cy - sy * R], 'straight-along')
                elif not d:
                    every += 3
                    if check:
                        ox, oy = cx + sx * 2 * R, cy - sy * 2 * R
                        found('arc', [ox - R, oy - R, ox + R, oy + R], 'inner-corner-rounded', start=(a + 180) % 360, extent=91, style='arc')
                        found('line', [ox, cy - sy * R, cx + sx * g * 0.5, cy - sy * R], 'inner-corner-along')
                        found('line', [cx + sx * R, oy, cx + sx * R, cy - sy * g * 0.5], 'inner-corner-up')
    S.check(len(items) == every, 'nothing-but-the-outline', lambda: (every, items))


def fits(S):
    """the window is as large as the board, whatever its size, and any score is shown"""
    fake = Fake(S)
    import graphicsDisplay
    w, h = S.int('w', 1, 200), S.int('h', 1, 200)
    z = S.pick('zoom', [1, 0.5, 2.0])

    class L:
        width, height = w, h
    gs = graphicsDisplay.PacmanGraphics(zoom=z)
    gs.make_window(w, h)
    S.check(Near(S).all(fake.window.canvas.size, [(w + 1) * z * 30, (h + 1) * z * 30 + 35]), 'window-fits-the-board', lambda: (w, h, fake.window.canvas.size))
    pane = graphicsDisplay.InfoPane(L, z * 30)
    t = fake.items('text')
    S.check(len(t) == 1 and Near(S).all(t[0].coords, [z * 30, (h + 1) * z * 30]), 'score-below-the-board', lambda: t)
    n = S.pick('score', [-123456, -1000, -1, 0, 7, 9999, 10000, 1234567])
    pane.updateScore(n)
    S.check(t[0].opts['text'].split() == ['SCORE:', str(n)], 'score-shown', lambda: (n, t))


BIG = ['%%%%%%%%%%%', '%o.G. 3  .%', '%.%%%.%%%.%', '%G  P..  4%', '%%%%o%%%%.%', '%...... .o%', '%%%%%%%%%%%']


def large(S):
    """a board of real size with four ghosts and a longer course"""
    fake = Fake(S)
    import graphicsDisplay
    real, n = S.pick, [0]

    def few(name, values):
        # every fifth move is any of them, the others are decided by the number of the move
        n[0] += 1
        return real(name, values) if n[0] % 5 == 1 else values[n[0] % len(values)]
    S.pick = few
    try:
        course(S, BIG, S.deep(16, 21), 30.0, graphicsDisplay.PacmanGraphics(), fake, 4)
    finally:
        S.pick = real


SCENARIOS = {'play': play, 'zoom': zoom, 'frames': frames, 'walls': walls, 'fits': fits, 'large': large}
