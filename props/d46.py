"""D46 overlays and information on the screen"""
from props.board import truth
from props.screen import Fake
from props.d43 import BOARDS, GHOSTS, Near, Screen, course, figures

BOUNDS = {'quick': 'beliefs: 1-3 distributions over the cells of a 3x3 board, any of 3 weights in 2 cells; up to 3 explored cells drawn '
                   'up to twice at any zoom; 1-4 ghost distances changed twice, any zoom; both teams; first person view of every course of up to 3 '
                   'moves of boards with and without hidden ghosts; a 7x3 board with 14 explored cells and 4 distributions',
          'thorough': '5 explored cells drawn three times; courses of 5 moves'}
OUTSIDE = 'what tkinter makes of the canvas; first person colours'
ASSUMPTIONS = ['tkinter is replaced by a stand-in keeping the canvas items as data (props/screen.py)']


def begin(S, text, z=1, **k):
    fake = Fake(S)
    import graphicsDisplay
    import pacman
    import layout
    gs = graphicsDisplay.PacmanGraphics(zoom=z, **k)
    st = pacman.GameState()
    st.initialize(layout.Layout(list(text)), 4)
    gs.initialize(st.data)
    return fake, gs, st


def squares(S, fake, old):
    return [i for i in fake.items('polygon') if len(i.coords) == 8 and not any(i is o for o in old)]


def covers(S, near, it, x, y, h, g):
    cx, cy = (x + 1) * g, (h - y) * g
    r = g * 0.5
    return near.all(it.coords, [cx - r, cy - r, cx + r, cy - r, cx + r, cy + r, cx - r, cy + r])


def beliefs(S):
    """every cell has the colour of the weights there, and the distributions are left alone"""
    fake, gs, st = begin(S, ['%%%', '%P%', '%%%'])
    import util
    old = fake.items()
    n = 1 + S.choose('n', 3)
    cells = [(0, 0), (1, 1), (2, 1)]
    where = [S.pick(f'c{i}', [(0, 1), (1, 2), (0, 2)]) for i in range(1)][0]
    ws = [0, 0.25, 1]
    ds = []
    for i in range(n):
        d = util.Counter()
        for k in where:
            d[cells[k]] = S.pick(f'w{i}{k}', ws if i < 2 else [0, 1])
        ds.append(d)
    was = [dict(d) for d in ds]
    for again in range(2):
        gs.updateDistributions(ds if not again or S.flag('list') else iter(ds))
        S.check([dict(d) for d in ds] == was,
                'distributions-left-alone', lambda: (was, ds))
        blocks = squares(S, fake, old)
        S.check(len(blocks) == 9, 'a-block-for-each-cell', lambda: blocks)
        S.check(fake.items()[1:10] == blocks, 'blocks-in-the-background', lambda: fake.canvas.order)
        near = Near(S)
        for x in range(3):
            for y in range(3):
                b = [i for i in blocks if covers(S, near, i, x, y, 3, 30.0)]
                S.check(len(b) == 1, 'a-block-for-each-cell', lambda: (x, y, b))
                want = [0.0, 0.0, 0.0]
                for d, c in zip(was, GHOSTS[1:]):
                    w = d.get((x, y), 0)
                    for j in range(3):
                        want[j] = min(1.0, want[j] + 0.95 * int(c[1 + 2 * j:3 + 2 * j], 16) / 256 * w ** .3)
                got = [int(b[0].opts['fill'][1 + 2 * j:3 + 2 * j], 16) for j in range(3)]
                S.check(all(abs(p - 255 * q) <= 1.01 for p, q in zip(got, want)), 'coloured-by-the-weights', lambda: (was, (x, y), want, got))
        if n > 1:
            ds.reverse()
            was.reverse()


def explored(S):
    """the explored cells, the first ones brighter; drawn again they replace the others"""
    z = S.real('zoom', 0, 10, lo_open=True)
    S.assume(z > 0.5)
    fake, gs, st = begin(S, ['%%%%', '%P.%', '%%%%'], z, frameTime=S.pick('time', [0, -1]))
    old = fake.items()
    near = Near(S)
    if S.flag('early'):
        gs.clearExpandedCells()
    pool = [(0, 0), (1, 1), (2, 1), (3, 2)]
    for again in range(S.deep(2, 3)):
        cells = [S.pick(f'c{again}{i}', pool if i == 0 and again == 0 else pool[1:i + 2]) for i in range(1 + S.choose(f'n{again}', S.deep(3, 5)))]
        gs.drawExpandedCells(cells)
        blocks = squares(S, fake, old)
        S.check(len(blocks) == len(cells), 'a-block-for-each-explored-cell', lambda: (cells, blocks))
        shown = fake.items()
        S.check(all(shown.index(b) < min(shown.index(o) for o in old[1:]) and shown.index(b) > 0 for b in blocks), 'behind-the-figures')
        blocks = [fake.canvas.items[i] for i in sorted(fake.canvas.items) if any(fake.canvas.items[i] is b for b in blocks)]
        S.check(all(covers(S, near, b, *c, 3, z * 30) for b, c in zip(blocks, cells)), 'blocks-over-their-cells', lambda: (cells, blocks))
        red = [int(b.opts['fill'][1:3], 16) for b in blocks]
        S.check(all(a > b for a, b in zip(red, red[1:])) and red[0] == 191 and all(b.opts['fill'][3:] == '3f3f' for b in blocks),
                'first-ones-brighter', lambda: (cells, blocks))
        if S.flag(f'clear{again}'):
            gs.clearExpandedCells()
            S.check(fake.items() == old, 'cleared', lambda: fake.items())


def distances(S):
    """one text per ghost in its colour, always the latest distances"""
    z = S.real('zoom', 0, 10, lo_open=True)
    S.assume(z > 0.5)
    fake, gs, st = begin(S, ['%%%%%%', '%P...%', '%%%%%%'], z)
    n = 1 + S.choose('n', 4)
    score = fake.items('text')[0]
    near = Near(S)
    S.check(near.all(score.coords, [z * 30, 4 * z * 30]), 'score-below-the-board', lambda: score)
    for again in range(2):
        d = [S.pick(f'd{again}{i}', ['', '7']) if i in (0, n - 1) else str(i + again) for i in range(n)]
        st = st.generateSuccessor(0, 'East')
        if again or not S.flag('none'):
            st.data.ghostDistances = d
        else:
            st.data.ghostDistances = []
            d = []
        gs.update(st.data)
        texts = [t for t in fake.items('text') if t is not score]
        S.check([t.opts['text'] for t in texts] == d and [t.opts['fill'] for t in texts] == GHOSTS[1:1 + len(d)], 'latest-distances',
                lambda: (d, texts))
        S.check(all(truth(a.coords[0] < b.coords[0]) for a, b in zip(texts, texts[1:])), 'side-by-side', lambda: texts)
        S.check(score.opts['text'].split() == ['SCORE:', str(int(st.getScore()))], 'score-shown', lambda: score)


def teams(S):
    fake, gs, st = begin(S, ['%%%%', '%P.%', '%%%%'])
    blue = S.flag('blue')
    gs.infoPane.setTeam(blue)
    t = fake.items('text')
    S.check(len(t) == 2 and t[1].opts['text'] == ('BLUE TEAM' if blue else 'RED TEAM'), 'team-shown', lambda: t)


def first_person(S):
    """like the other view, except that hidden ghosts are off the screen"""
    fake = Fake(S)
    import graphicsDisplay
    show = S.flag('show')
    gs = graphicsDisplay.FirstPersonPacmanGraphics(showGhosts=show)

    def hide(f):
        return f if show or f[0] or not truth(f[1][1] > 1) else (f[0], (-1000, -1000), f[2], f[3])
    text = S.pick('board', [BOARDS[2], ['%%%%%', '%.G.%', '%  P%', '%%%%%'], ['%%%%', '% P%', '%G.%', '%%%%']])
    course(S, text, S.deep(4, 5), 30.0, gs, fake, hide=hide)


def capture(S):
    """two teams: walls and food in the colour of their half, figures of Pacman outlined in the colour of their team; an agent
    which turns from a ghost into a Pacman or back is drawn as that from then on, where it is"""
    fake = Fake(S)
    import graphicsDisplay
    import pacman
    import layout
    near = Near(S)
    gs = graphicsDisplay.PacmanGraphics(capture=True)
    w = S.pick('w', [5, 6, 7])
    lay = layout.Layout(['%' * w, '%.P' + ' ' * (w - 5) + 'G%', '%G' + ' ' * (w - 4) + '.%', '%' * w])
    st = pacman.GameState()
    st.initialize(lay, 2)
    for i in range(3):
        if i and S.flag(f'pacman{i}'):
            st.data.agentStates[i].isPacman = True
    gs.initialize(st.data)
    figs = figures(st.data)
    teams = GHOSTS[:2]

    def column(i):
        return round((i.coords[0] + i.coords[2]) / 60 - 1, 1) if i.kind == 'line' else (i.coords[0] + i.coords[2] + 1) / 60 - 1
    old = fake.items()
    walls = [i for i in fake.items('arc') if i.opts['style'] == 'arc'] + fake.items('line')
    S.check(len(walls) > 8, 'walls-drawn')
    for i in walls:
        c = column(i)
        if abs(c - w / 2 + 0.25) > 0.6:
            S.check((i.opts.get('fill') or i.opts['outline']) == teams[c > w / 2 - 0.25], 'walls-in-the-colour-of-their-half', lambda: (w, i))
    food = [i for i in fake.items('arc') if i.opts['width'] == 1 and i.opts['style'] == 'pieslice']
    S.check(sorted((round(column(i)), i.opts['fill'], i.opts['outline']) for i in food)
            == [(1, teams[0], teams[0]), (w - 2, teams[1], teams[1])], 'food-in-the-colour-of-its-half', lambda: food)

    def look(figs, label):
        """pacmen: a pie in the colour of the agent with the outline of the team; ghosts: the body"""
        pies = [i for i in fake.items('arc') if i.opts['style'] == 'pieslice' and i.opts['width'] == 4]
        bodies = [i for i in fake.items('polygon') if len(i.coords) == 22]
        want = [k for k, f in enumerate(figs) if f[0]]
        S.check(sorted((i.opts['fill'], i.opts['outline']) for i in pies) == sorted((GHOSTS[k], teams[k % 2]) for k in want), label, lambda: (figs, pies))
        S.check(sorted(b.opts['fill'] for b in bodies) == sorted(GHOSTS[k] for k, f in enumerate(figs) if not f[0]), label, lambda: (figs, bodies))
        eyes = [i for i in fake.items('arc') if i.opts['fill'] in ('#ffffff', '#000000') and i.opts['width'] == 2]
        S.check(len(eyes) == 4 * len(bodies), label, lambda: (figs, eyes))
        for k, f in enumerate(figs):
            x, y = (f[1][0] + 1) * 30, (lay.height - f[1][1]) * 30
            if f[0]:
                it = [i for i in pies if i.opts['fill'] == GHOSTS[k]]
                S.check(any(near.all(i.coords, [x - 16, y - 16, x + 15, y + 15]) for i in it), label + '-in-its-place', lambda: (k, f, it))
            else:
                it = [i for i in bodies if i.opts['fill'] == GHOSTS[k]]
                S.check(any(near.all(i.coords[:2], [x, y + 0.3 * 30 * 0.65]) for i in it), label + '-in-its-place', lambda: (k, f, it))
        S.check(len(fake.items()) == len(old) - n0 + len(pies) + 5 * len(bodies), label + '-and-nothing-else', lambda: fake.items())
    n0 = len([f for f in figs if f[0]]) + 5 * len([f for f in figs if not f[0]])
    look(figs, 'figures-of-the-teams')
    for n in range(S.deep(3, 5)):
        k = n % 3
        st = st.generateSuccessor(k, S.pick(f'move{n}', sorted(st.getLegalActions(k))[:2])) if not k or not st.data.agentStates[k].isPacman else st.deepCopy()
        st.data._agentMoved = k
        if k and S.flag(f'turn{n}'):
            st.data.agentStates[k].isPacman = not st.data.agentStates[k].isPacman
        if truth(st.isWin()) or truth(st.isLose()):
            break
        gs.update(st.data)
        figs = [f if i != k else g for i, (f, g) in enumerate(zip(figs, figures(st.data)))]
        if st.data._foodEaten is not None:
            n0 += 1
        look(figs, 'figures-after-the-move')


def large(S):
    """a board of real size: many explored cells, beliefs everywhere, five distances"""
    rows = ['%%%%%%%%%', '%P.....G%', '%.%%%%%.%', '%.....G.%', '%%%%%%%%%']
    fake, gs, st = begin(S, rows)
    import util
    near = Near(S)
    old = fake.items()
    cells = [(x, y) for x in range(1, 8) for y in (1, 3)]
    k = S.pick('cells', [1, 7, 14])
    gs.drawExpandedCells(cells[:k])
    blocks = squares(S, fake, old)
    S.check(len(blocks) == k, 'a-block-for-each-explored-cell', lambda: (k, blocks))
    ids = sorted(i for i in fake.canvas.items if any(fake.canvas.items[i] is b for b in blocks))
    S.check(all(covers(S, near, fake.canvas.items[i], *c, 5, 30.0) for i, c in zip(ids, cells)), 'blocks-over-their-cells', lambda: blocks)
    red = [int(fake.canvas.items[i].opts['fill'][1:3], 16) for i in ids]
    S.check(all(a > b for a, b in zip(red, red[1:])) and red[0] == 191, 'first-ones-brighter', lambda: red)
    gs.clearExpandedCells()
    S.check(fake.items() == old, 'cleared', lambda: fake.items())
    n = 2 + S.choose('n', 3)
    ds = []
    for i in range(n):
        d = util.Counter()
        for j, c in enumerate(cells):
            d[c] = (j + i) % 5 / 8
        d[cells[S.pick(f'c{i}', [0, 13])]] = 1.0
        ds.append(d)
    was = [dict(d) for d in ds]
    gs.updateDistributions(ds)
    S.check([dict(d) for d in ds] == was, 'distributions-left-alone')
    blocks = squares(S, fake, old)
    S.check(len(blocks) == 45 and fake.items()[1:46] == blocks, 'a-block-for-each-cell', lambda: blocks)
    for b in blocks:
        x, y = round((b.coords[0] + 15) / 30 - 1), round(5 - (b.coords[1] + 15) / 30)
        S.check(covers(S, near, b, x, y, 5, 30.0), 'a-block-for-each-cell', lambda: b)
        want = [0.0, 0.0, 0.0]
        for d, c in zip(was, GHOSTS[1:]):
            for j in range(3):
                want[j] = min(1.0, want[j] + 0.95 * int(c[1 + 2 * j:3 + 2 * j], 16) / 256 * d.get((x, y), 0) ** .3)
        got = [int(b.opts['fill'][1 + 2 * j:3 + 2 * j], 16) for j in range(3)]
        S.check(all(abs(p - 255 * q) <= 1.01 for p, q in zip(got, want)), 'coloured-by-the-weights', lambda: ((x, y), want, got))
    S.check(len({tuple(b.coords) for b in blocks}) == 45, 'a-block-for-each-cell')


SCENARIOS = {'beliefs': beliefs, 'explored': explored, 'distances': distances, 'teams': teams, 'first_person': first_person, 'capture': capture, 'large': large}
