"""D39 the agents of the game"""
import sys
import types
from props.board import NAMES, VEC, BACK, Board, Ghost, fake_random, legal_moves, truth
from props.d32 import dist

BOUNDS = {'quick': 'ghosts on any cell of a 3x2 interior with any walls around, any direction and timer, pacman anywhere, any '
                   'attack and flee probabilities; keyboard: every set of legal moves, one or two keys, any last move, keys replaced by others; a ghost asked about two states; any of 4 ghosts on a 7x4 interior',
          'thorough': '4x3 interior; any two keys'}
OUTSIDE = 'which of several pressed direction keys wins; ghosts walled in on all sides'


def ghost_board(S, simple):
    w, h = S.deep((5, 4), (6, 5))
    cell = S.pick('cell', [(2, 1), (1, 2)]) if simple else (1 + S.choose('gx', w - 2), 1 + S.choose('gy', h - 2))
    walls = {}
    for d in NAMES[:4]:
        c = (cell[0] + VEC[d][0], cell[1] + VEC[d][1])
        if 0 < c[0] < w - 1 and 0 < c[1] < h - 1:
            walls[c] = S.bool(f'wall{d}')
    g = Ghost(cell, S.pick('dir', ['Stop', 'East', 'North'] if simple else NAMES), S.int('timer', 0, 40), (1, 1))
    p = (S.real('px', 0, w), S.real('py', 0, h)) if simple else (1, 1)
    return Board(S, w, h, p, 'Stop', [g], walls, {}, [], 0), g


def random_ghost(S):
    import ghostAgents
    import util
    b, g = ghost_board(S, False)
    legal = b.state.getLegalActions(1)
    S.assume(len(legal) > 0)
    a = ghostAgents.RandomGhost(1)
    d = a.getDistribution(b.state)
    S.check(sorted(k for k in d if truth(d[k] > 0)) == sorted(legal), 'only-legal', lambda: (legal, dict(d)))
    for k in legal:
        S.eq(d[k] * len(legal), 1, 'uniform', lambda: (legal, dict(d)))
    r = S.real('r', 0, 1, lo_open=True, hi_open=True)
    fake_random(S, [r])
    S.check(a.getAction(b.state) in legal, 'chooses-legal', lambda: legal)


def directional(S):
    import ghostAgents
    b, g = ghost_board(S, True)
    legal = b.state.getLegalActions(1)
    S.assume(len(legal) > 0)
    pa, pf = S.real('attack', 0, 1), S.real('flee', 0, 1)
    a = ghostAgents.DirectionalGhost(1, prob_attack=pa, prob_scaredFlee=pf)
    d = a.getDistribution(b.state)
    scared = truth(g.timer > 0)
    speed = 0.5 if scared else 1
    ds = {x: dist((g.pos[0] + VEC[x][0] * speed, g.pos[1] + VEC[x][1] * speed), b.pac) for x in legal}
    best = []
    for x in legal:
        if all(truth(ds[x] >= ds[y]) if scared else truth(ds[x] <= ds[y]) for y in legal):
            best.append(x)
    p = pf if scared else pa
    S.cover('scared' if scared else 'attack')
    S.check(all(k in legal for k in d), 'only-legal', lambda: (legal, dict(d)))
    for x in legal:
        want = (1 - p) / len(legal)
        if x in best:
            want = want + p / len(best)
        S.eq(d[x], want, 'prefers-the-best-moves', lambda: (g.pos, b.pac, scared, legal, best, dict(d)))
    S.eq(d.totalCount(), 1, 'sums-to-one')


directional.covers = ('scared', 'attack')


def directional_acts(S):
    import ghostAgents
    import util
    b, g = ghost_board(S, False)
    legal = b.state.getLegalActions(1)
    S.assume(len(legal) > 0)
    a = ghostAgents.DirectionalGhost(1)
    r = S.real('r', 0, 1, lo_open=True, hi_open=True)
    fake_random(S, [r])
    S.check(a.getAction(b.state) in legal, 'chooses-legal', lambda: legal)


class LegalState:
    def __init__(self, legal):
        self.legal = legal
        self.asked = []

    def getLegalActions(self, i=0):
        self.asked.append(i)
        return list(self.legal)


def keyboard(S):
    """a pressed key wins if its move is legal, otherwise pacman goes on, and he never does anything illegal"""
    second = S.flag('second')
    dirs = {'a': 'West', 'd': 'East', 'w': 'North', 's': 'South', 'Left': 'West', 'Right': 'East', 'Up': 'North', 'Down': 'South'}
    stop = 'q'
    if second:
        dirs = {'j': 'West', 'l': 'East', 'i': 'North', 'k': 'South'}
        stop = 'u'
    legal = S.subset('legal', NAMES[:4]) + ['Stop']
    pool = sorted(dirs) + [stop, 'z']
    n = S.choose('n', 3)
    waiting, pressed = [], []
    for i in range(n):
        (waiting if S.flag(f'w{i}') else pressed).append(S.pick(f'k{i}', pool if i == 0 or S.tier == 'thorough' else [pool[0], pool[-1], stop, 's', 'k']))
    more = S.pick('more', ['none', 'first', 'last']) if n < 2 or S.tier == 'thorough' else 'none'
    if more != 'none':
        # and many keys which mean nothing
        first = more == 'first'
        for ks in (waiting, pressed):
            ks[:] = [f'F{i}' for i in range(5)] + ks if first else ks + [f'F{i}' for i in range(5)]
    fake = types.ModuleType('graphicsUtils')
    fake.keys_waiting = lambda: list(waiting)
    fake.keys_pressed = lambda *a, **k: list(pressed)
    sys.modules['graphicsUtils'] = fake
    import keyboardAgents
    fake_random(S)
    idx = S.choose('index', 2)
    ag = (keyboardAgents.KeyboardAgent2 if second else keyboardAgents.KeyboardAgent)(idx)
    ag.lastMove = last = S.pick('last', NAMES)
    st = LegalState(legal)
    got = ag.getAction(st)
    det = lambda: (legal, waiting, pressed, last, got)
    S.check(got in legal, 'chooses-legal', det)
    S.check(set(st.asked) == {idx}, 'asks-for-its-own-moves', det)
    S.check(ag.lastMove == got, 'remembers-the-move', det)
    keys = waiting + pressed
    asked = [dirs[k] for k in keys if k in dirs and dirs[k] in legal]
    if stop in keys:
        S.check(got == 'Stop', 'stop-key', det)
    elif asked:
        S.check(got in asked, 'pressed-legal-direction', det)
    elif last in legal:
        S.check(got == last, 'goes-on', det)
    else:
        S.check(got == 'Stop', 'nothing-to-do', det)


def keyboard_again(S):
    """without a new key the last keys stay in force"""
    dirs = {'a': 'West', 'd': 'East', 'w': 'North', 's': 'South'}
    now = []
    fake = types.ModuleType('graphicsUtils')
    fake.keys_waiting = lambda: list(now)
    fake.keys_pressed = lambda *a, **k: []
    sys.modules['graphicsUtils'] = fake
    import keyboardAgents
    fake_random(S)
    ag = keyboardAgents.KeyboardAgent()
    k = S.pick('key', sorted(dirs))
    others = S.pick('others', [0, 6])
    now += [k] + [f'F{i}' for i in range(others)]
    first = S.subset('l', NAMES[:4]) + ['Stop']
    a = ag.getAction(LegalState(first))
    S.check(a == (dirs[k] if dirs[k] in first else 'Stop'), 'pressed-legal-direction', lambda: (k, first, a))
    now.clear()
    second = S.subset('m', NAMES[:4]) + ['Stop']
    b = ag.getAction(LegalState(second))
    S.check(b == (dirs[k] if dirs[k] in second else a if a in second else 'Stop'), 'keys-stay-in-force',
            lambda: (k, first, second, a, b))


def another_state(S):
    """a ghost asked again about another state answers about that one"""
    import ghostAgents
    w, h = 7, 5
    a = ghostAgents.DirectionalGhost(1)
    r = ghostAgents.RandomGhost(1)
    for i in range(2):
        g = Ghost(S.pick(f'cell{i}', [(2, 2), (4, 3)]), S.pick(f'dir{i}', ['Stop', 'East']), S.pick(f'timer{i}', [0, 7]), (1, 1))
        b = Board(S, w, h, S.pick(f'pac{i}', [(1, 1), (5, 2), (3, 3)]), 'Stop', [g], {(3, 2): S.flag(f'wall{i}')}, {}, [], 0)
        legal = b.state.getLegalActions(1)
        S.assume(len(legal) > 0)
        d = a.getDistribution(b.state)
        scared, speed = g.timer > 0, 0.5 if g.timer > 0 else 1
        ds = {x: dist((g.pos[0] + VEC[x][0] * speed, g.pos[1] + VEC[x][1] * speed), b.pac) for x in legal}
        best = [x for x in legal if ds[x] == (max if scared else min)(ds.values())]
        S.check(all(x in legal for x in d), 'only-legal', lambda: (legal, dict(d)))
        for x in legal:
            S.check(abs(d[x] - 0.2 / len(legal) - (0.8 / len(best) if x in best else 0)) < 1e-9, 'prefers-the-best-moves',
                    lambda: (i, g.pos, b.pac, scared, legal, best, dict(d)))
        d = r.getDistribution(b.state)
        S.check(sorted(x for x in d if d[x] > 0) == sorted(legal) and all(abs(d[x] - 1 / len(legal)) < 1e-9 for x in legal), 'uniform',
                lambda: (i, legal, dict(d)))


def keyboard_replaced(S):
    """newly pressed keys replace the ones before"""
    second = S.flag('second')
    dirs = {'j': 'West', 'l': 'East', 'i': 'North', 'k': 'South'} if second else {'a': 'West', 'd': 'East', 'Up': 'North', 's': 'South'}
    stop = 'u' if second else 'q'
    now, held = [], []
    fake = types.ModuleType('graphicsUtils')
    fake.keys_waiting = lambda: list(now)
    fake.keys_pressed = lambda *a, **k: list(held)
    sys.modules['graphicsUtils'] = fake
    import keyboardAgents
    fake_random(S)
    ag = (keyboardAgents.KeyboardAgent2 if second else keyboardAgents.KeyboardAgent)()
    pool = sorted(dirs) + [stop]
    k0, k1 = S.pick('key', pool), S.pick('other', pool)
    now += [k0]
    held += [k1]
    a = ag.getAction(LegalState(NAMES))
    S.check(a == 'Stop' if stop in (k0, k1) else a in (dirs[k0], dirs[k1]), 'pressed-legal-direction', lambda: (k0, k1, a))
    now.clear()
    held.clear()
    k2 = S.pick('new', pool)
    (now if S.flag('waiting') else held).append(k2)
    legal = S.subset('l', NAMES[:4]) + ['Stop']
    b = ag.getAction(LegalState(legal))
    want = 'Stop' if k2 == stop else dirs[k2] if dirs[k2] in legal else a if a in legal else 'Stop'
    S.check(b == want, 'new-keys-replace-the-old', lambda: (k0, k1, k2, legal, a, b))


def large(S):
    """any of four ghosts: it looks at itself and at Pacman, not at the others"""
    import ghostAgents
    w, h = 9, 6
    k = 1 + S.choose('which', 4)
    others = S.pick('others', [0, 9])
    gs = [Ghost((2 + i, 4), NAMES[i], others, (1 + i, 1)) for i in range(4)]
    cell = S.pick('cell', [(4, 2), (7, 1)])
    gs[k - 1] = g = Ghost(cell, S.pick('dir', ['Stop', 'East', 'North']), S.pick('timer', [0, 1, 30]), (1, 1))
    walls = {(cell[0] - 1, cell[1]): S.bool('wall')}
    b = Board(S, w, h, (S.real('px', 0, w), S.real('py', 0, h)), 'Stop', gs, walls, {}, [], 0)
    ways = [x for x in legal_moves(b.wall, cell) if x != 'Stop']
    legal = [x for x in ways if x != BACK[g.direction]] or ways if len(ways) > 1 else ways
    d = ghostAgents.RandomGhost(k).getDistribution(b.state)
    S.check(sorted(x for x in d if truth(d[x] > 0)) == sorted(legal), 'only-legal', lambda: (legal, dict(d)))
    for x in legal:
        S.eq(d[x] * len(legal), 1, 'uniform', lambda: (legal, dict(d)))
    pa, pf = S.real('attack', 0, 1), S.real('flee', 0, 1)
    d = ghostAgents.DirectionalGhost(k, prob_attack=pa, prob_scaredFlee=pf).getDistribution(b.state)
    scared = g.timer > 0
    speed = 0.5 if scared else 1
    ds = {x: dist((cell[0] + VEC[x][0] * speed, cell[1] + VEC[x][1] * speed), b.pac) for x in legal}
    best = [x for x in legal if all(truth(ds[x] >= ds[y]) if scared else truth(ds[x] <= ds[y]) for y in legal)]
    p = pf if scared else pa
    for x in legal:
        S.eq(d[x], (1 - p) / len(legal) + (p / len(best) if x in best else 0), 'prefers-the-best-moves',
             lambda: (cell, b.pac, scared, legal, best, dict(d)))
    S.check(all(x in legal for x in d), 'only-legal', lambda: (legal, dict(d)))


SCENARIOS = {'random_ghost': random_ghost, 'directional': directional, 'directional_acts': directional_acts,
             'keyboard': keyboard, 'keyboard_again': keyboard_again,
             'another_state': another_state, 'keyboard_replaced': keyboard_replaced, 'large': large}
