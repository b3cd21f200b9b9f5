"""D33 the outcome of a move of a ghost"""
from props.board import NAMES, VEC, BACK, Board, Ghost, legal_moves, same_pos, truth, view
from props.d32 import dist

BOUNDS = {'quick': 'the moving ghost on any cell or half way between two cells of a 3x2 interior, every legal move, any timer '
                   '0..40; pacman anywhere (real position), a second ghost anywhere; any score; any of 4 ghosts on a 7x4 interior',
          'thorough': '4x3 interior'}
OUTSIDE = 'more than 4 ghosts'


def expect(S, b, k, a, n):
    """checks the successor n of b after ghost k (1 ..) moved by a"""
    d = n.data
    g = b.ghosts[k - 1]
    det = lambda: (b.pac, k, a, [(x.pos, x.direction, x.timer) for x in b.ghosts], view(n))
    speed = 0.5 if truth(g.timer > 0) else 1
    pos = (g.pos[0] + VEC[a][0] * speed, g.pos[1] + VEC[a][1] * speed)
    if truth(g.timer == 1):
        S.cover('snap')
        # back to the grid when the scare ends
        p = n.getGhostPosition(k) if not truth(n.data._eaten[k]) else None
        if p is not None:
            for got, raw in zip(p, pos):
                S.check(got == int(got), 'back-on-grid', det)
                S.check(got - raw <= 0.5, 'back-on-grid', det)
                S.check(raw - got <= 0.5, 'back-on-grid', det)
        pos = (int(pos[0] + 0.5), int(pos[1] + 0.5))
    timer = g.timer - 1 if truth(g.timer > 0) else 0
    hit = truth(dist(pos, b.pac) <= 0.7)
    st = n.getGhostState(k)
    score, lose = 0, False
    if hit and truth(timer > 0):
        S.cover('eaten')
        score = 200
        same_pos(S, st.getPosition(), g.start, 'eaten-ghost-restarts', det)
        S.eq(st.scaredTimer, 0, 'eaten-ghost-not-scared', det)
    else:
        same_pos(S, st.getPosition(), pos, 'ghost-position', det)
        S.check(st.getDirection() == a, 'ghost-direction', det)
        S.eq(st.scaredTimer, timer, 'scared-timer', det)
        if hit:
            S.cover('caught')
            score, lose = -500, True
    S.check(truth(n.isLose()) == lose and not n.isWin(), 'lose', det)
    S.eq(d.score, b.score + score, 'score', det)
    S.eq(d.scoreChange, score, 'score-change', det)
    S.check(truth(d._eaten[k]) == (score == 200), 'eaten-mark', det)
    # nothing else moves
    same_pos(S, n.getPacmanPosition(), b.pac, 'others-stay', det)
    S.check(n.getPacmanState().getDirection() == b.pac_dir, 'others-stay', det)
    for i, o in enumerate(b.ghosts):
        if i != k - 1:
            st = n.getGhostState(i + 1)
            same_pos(S, st.getPosition(), o.pos, 'others-stay', det)
            S.check(st.getDirection() == o.direction, 'others-stay', det)
            S.eq(st.scaredTimer, o.timer, 'others-stay', det)
    S.check(all(truth(n.hasFood(x, y)) == truth(b.food.get((x, y), False)) for x in range(b.w) for y in range(b.h))
            and list(n.getCapsules()) == b.capsules, 'ghosts-eat-nothing', det)
    S.check(d._foodEaten is None and d._capsuleEaten is None and d._agentMoved == k, 'marks', det)


def setup(S, two, where='cell'):
    w, h = S.deep((5, 4), (6, 5))
    cell = (1 + S.choose('gx', w - 2), 1 + S.choose('gy', h - 2))
    a = S.pick('action', NAMES[:4])
    to = (cell[0] + VEC[a][0], cell[1] + VEC[a][1])
    S.assume(0 < to[0] < w - 1 and 0 < to[1] < h - 1)
    pos = cell
    direction = a if two or where == 'half' else S.pick('dir', [a, 'Stop'])
    if where == 'half':
        pos = (cell[0] + VEC[a][0] * 0.5, cell[1] + VEC[a][1] * 0.5)
    timer = S.int('timer', 1 if where == 'half' else 0, 40)
    g = Ghost(pos, direction, timer, S.pick('start', [(1, 1), (w - 2, h - 2)]))
    gs = [g]
    k = 1
    if two:
        o = Ghost((S.real('ox', 0, w), S.real('oy', 0, h)), 'North', S.int('otimer', 0, 40), (2, 1))
        k = 1 + S.choose('which', 2)
        gs = [g, o] if k == 1 else [o, g]
    food = {(1, 1): S.flag('food'), to: True}
    return Board(S, w, h, (S.real('px', 0, w), S.real('py', 0, h)), 'East' if two else S.pick('pdir', ['Stop', 'East']), gs, {}, food,
                 [to], S.int('score')), k, a


def run(S, b, k, a):
    n = S.attempt(b.state.generateSuccessor, k, a)
    S.check(not S.refused(n), 'legal-move-accepted', lambda: n)
    if not S.refused(n):
        expect(S, b, k, a, n)


def on_cell(S):
    run(S, *setup(S, False))


def half_way(S):
    run(S, *setup(S, False, 'half'))


def with_another(S):
    run(S, *setup(S, True))


for f in (on_cell, half_way, with_another):
    f.covers = ('snap', 'eaten', 'caught')


def stays_free(S):
    """invariant: from any state where pacman stands on a free cell and each ghost on a free cell, or half way between two
    free cells while scared, every legal move of anyone leads to such a state again"""
    w, h = 5, 3
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    walls = {c: S.bool(f'wall{c[0]}_{c[1]}') for c in inner}
    pac = S.pick('pac', inner)
    S.assume(not walls[pac])
    cell = S.pick('cell', inner)
    start = S.pick('start', inner)
    S.assume(not walls[cell])
    S.assume(not walls[start])
    d = S.pick('dir', NAMES)
    timer = S.int('timer', 0, 40)
    pos = cell
    if d != 'Stop' and S.flag('half'):
        to = (cell[0] + VEC[d][0], cell[1] + VEC[d][1])
        S.assume(to in walls)
        S.assume(not walls[to])
        S.assume(timer > 0)
        pos = (cell[0] + VEC[d][0] * 0.5, cell[1] + VEC[d][1] * 0.5)
    caps = [c for c in inner if S.flag(f'cap{c[0]}')]
    b = Board(S, w, h, pac, 'Stop', [Ghost(pos, d, timer, start)], walls, {(1, 1): True, (2, 1): True}, caps, 0)
    who = S.choose('who', 2)
    legal = b.state.getLegalActions(who)
    for a in legal:
        n = b.state.generateSuccessor(who, a)
        p = n.getPacmanPosition()
        det = lambda: (pac, pos, d, timer, who, a, view(n))
        S.check(not b.wall((int(p[0]), int(p[1]))) and p[0] == int(p[0]) and p[1] == int(p[1]), 'pacman-on-a-free-cell', det)
        q = n.getGhostPosition(1)
        low = (int(q[0]), int(q[1]))
        hi = (int(q[0] + 0.5), int(q[1] + 0.5))
        S.check(not b.wall(low) and not b.wall(hi), 'ghost-between-free-cells', det)
        if low != hi:
            S.cover('between')
            S.check(n.getGhostState(1).scaredTimer > 0, 'off-grid-only-while-scared', det)
            S.check(q[0] == int(q[0]) or q[1] == int(q[1]), 'on-a-line', det)
            S.check((q[0] == low[0]) == (n.getGhostState(1).getDirection() in ('North', 'South')), 'along-its-direction', det)
        t = n.getGhostState(1).scaredTimer
        S.check(t >= 0, 'timer-range', det)
        S.check(t <= 40, 'timer-range', det)


stays_free.covers = ('between',)
def large(S):
    """any of four ghosts moves on a wide board with food and capsules"""
    w, h = 9, 6
    k = 1 + S.choose('which', 4)
    cell, a = S.pick('from', [(4, 2), (7, 4), (1, 3)]), S.pick('action', NAMES[:4])
    to = (cell[0] + VEC[a][0], cell[1] + VEC[a][1])
    S.assume(0 < to[0] < w - 1 and 0 < to[1] < h - 1)
    gs = [Ghost((2 + i, 4), NAMES[i], i * 9, (1 + i, 1)) for i in range(4)]
    gs[k - 1] = Ghost(cell, a, S.int('timer', 0, 40), (7, 1))
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    food = {c: (c[0] + c[1]) % 2 == 0 for c in inner}
    b = Board(S, w, h, (S.real('px', 0, w), S.real('py', 0, h)), 'East', gs, {}, food, [(1, 4), (7, 1), to], S.int('score'))
    run(S, b, k, a)


large.covers = ('snap', 'eaten', 'caught')


SCENARIOS = {'on_cell': on_cell, 'half_way': half_way, 'with_another': with_another, 'stays_free': stays_free, 'large': large}
