"""D31 directions, moves and legal moves"""
from props.board import NAMES, VEC, BACK, Board, Ghost, legal_moves, same_pos, FakeRandom

BOUNDS = {'quick': 'every cell of a 3x3 interior, every arrangement of the walls next to it; symbolic real positions for '
                   'moving agents; neighbours on boards up to 3x3 with every arrangement of walls and no border; '
                   '4 ghosts on boards of 9x6 and 6x9',
          'thorough': '4x3 interior'}
OUTSIDE = 'boards without a border of walls for legal actions (indices wrap around there)'


def directions(S):
    from game import Directions as D, Actions as A
    a = S.pick('d', NAMES)
    S.check(D.REVERSE[a] == BACK[a] and A.reverseDirection(a) == BACK[a], 'reverse', a)
    left = {'North': 'West', 'West': 'South', 'South': 'East', 'East': 'North', 'Stop': 'Stop'}
    S.check(D.LEFT[a] == left[a] and left[D.RIGHT[a]] == a, 'left-right', a)
    S.check(sorted([D.NORTH, D.SOUTH, D.EAST, D.WEST, D.STOP]) == sorted(NAMES), 'names')
    sp = S.real('speed', 0, 10, lo_open=True)
    v = A.directionToVector(a, sp)
    same_pos(S, v, (VEC[a][0] * sp, VEC[a][1] * sp), 'vector', (a, sp))
    S.check(A.vectorToDirection(v) == a, 'vector-back', (a, sp))
    same_pos(S, A.directionToVector(a), VEC[a], 'unit-vector', a)
    x, y = S.real('x', -50, 50), S.real('y', -50, 50)
    same_pos(S, A.getSuccessor((x, y), a), (x + VEC[a][0], y + VEC[a][1]), 'successor-position', a)


def vectors(S):
    """a vector along an axis points where its sign says"""
    from game import Actions as A
    x = S.real('x', -5, 5)
    if S.flag('vertical'):
        S.check(A.vectorToDirection((0, x)) == ('North' if x > 0 else 'South' if x < 0 else 'Stop'), 'direction-of-vector')
    else:
        S.check(A.vectorToDirection((x, 0)) == ('East' if x > 0 else 'West' if x < 0 else 'Stop'), 'direction-of-vector')


def moved(S):
    """moving a configuration"""
    import game
    x, y, sp = S.real('x', -50, 50), S.real('y', -50, 50), S.pick('speed', [1, 0.5, 1.0])
    old, a = S.pick('old', NAMES), S.pick('d', NAMES)
    c = game.Configuration((x, y), old)
    n = c.generateSuccessor(game.Actions.directionToVector(a, sp))
    same_pos(S, n.getPosition(), (x + VEC[a][0] * sp, y + VEC[a][1] * sp), 'moved-position', (old, a))
    S.check(n.getDirection() == (old if a == 'Stop' else a), 'moved-direction', (old, a))
    same_pos(S, c.getPosition(), (x, y), 'origin-unchanged')
    S.check(c.getDirection() == old, 'origin-unchanged')


def nearest(S):
    import util
    from game import Configuration
    x, y = S.real('x', 0, 9), S.real('y', 0, 9)
    p = util.nearestPoint((x, y))
    S.check(isinstance(p, tuple) and len(p) == 2, 'nearest-point')
    for v, n in zip((x, y), p):
        S.check(n - v <= 0.5, 'nearest-point', (x, y))
        S.check(v - n <= 0.5, 'nearest-point', (x, y))
    c = Configuration((x, y), 'Stop')
    on = truth(x == p[0]) and truth(y == p[1])
    S.check(truth(c.isInteger()) == on, 'is-integer', (x, y))
    u, v = S.real('u', -9, 9), S.real('v', -9, 9)
    d = util.manhattanDistance((x, y), (u, v))
    S.eq(d, (x - u if x >= u else u - x) + (y - v if y >= v else v - y), 'manhattan')


def truth(b):
    return True if b else False


def board(S, w, h, cell, extra=()):
    walls = {}
    for d in NAMES[:4]:
        c = (cell[0] + VEC[d][0], cell[1] + VEC[d][1])
        if 0 < c[0] < w - 1 and 0 < c[1] < h - 1:
            walls[c] = S.bool(f'wall{d}')
    return walls


def pacman_legal(S):
    w, h = S.deep((5, 5), (6, 5))
    cell = (1 + S.choose('x', w - 2), 1 + S.choose('y', h - 2))
    b = Board(S, w, h, cell, S.pick('dir', NAMES), [Ghost((1, 1), 'Stop', 0, (1, 1))], board(S, w, h, cell), {}, [], 0)
    got = b.state.getLegalActions(0)
    want = legal_moves(b.wall, cell)
    S.check(len(got) == len(set(got)) and sorted(got) == sorted(want), 'legal-pacman-moves', lambda: (cell, got, want))
    S.check(sorted(b.state.getLegalPacmanActions()) == sorted(want) and sorted(b.state.getLegalActions()) == sorted(want),
            'legal-pacman-moves')
    a = S.pick('action', NAMES)
    r = S.attempt(b.state.generateSuccessor, 0, a)
    S.check(S.refused(r) == (a not in want), 'moves-iff-legal', lambda: (cell, a, want))
    # and the neighbours agree with the moves
    import game
    ns = game.Actions.getLegalNeighbors(cell, b.layout.walls)
    S.check(sorted(ns) == sorted((cell[0] + VEC[d][0], cell[1] + VEC[d][1]) for d in want), 'neighbours', lambda: (cell, ns))


def ghost_legal(S):
    """no stop, no turning around unless there is no other way"""
    w, h = S.deep((5, 5), (6, 5))
    cell = (1 + S.choose('x', w - 2), 1 + S.choose('y', h - 2))
    d = S.pick('dir', NAMES)
    t = S.int('timer', 0, 40)
    other = Ghost((1, 1), 'East', 0, (1, 1))
    g = Ghost(cell, d, t, (1, 1))
    k = 1 + S.choose('which', 2)
    b = Board(S, w, h, (1, 1), 'Stop', [g, other] if k == 1 else [other, g], board(S, w, h, cell), {}, [], 0)
    got = b.state.getLegalActions(k)
    ways = [a for a in legal_moves(b.wall, cell) if a != 'Stop']
    want = [a for a in ways if a != BACK[d]] or ways if len(ways) > 1 else ways
    S.check(len(got) == len(set(got)) and sorted(got) == sorted(want), 'legal-ghost-moves', lambda: (cell, d, got, want))
    a = S.pick('action', NAMES)
    r = S.attempt(b.state.generateSuccessor, k, a)
    S.check(S.refused(r) == (a not in want), 'moves-iff-legal', lambda: (cell, a, want))


def between(S):
    """between two cells an agent can only go on in its direction"""
    d = S.pick('dir', NAMES[:4])
    x, y = S.real('x', 1, 3), S.real('y', 1, 3)
    import game
    import util
    p = util.nearestPoint((x, y))
    dx, dy = x - p[0], y - p[1]
    off = (dx if dx >= 0 else -dx) + (dy if dy >= 0 else -dy)
    walls = game.Grid(5, 5, False)
    for i in range(5):
        walls[i][0] = walls[i][4] = walls[0][i] = walls[4][i] = True
    got = game.Actions.getPossibleActions(game.Configuration((x, y), d), walls)
    if off > 0.01:
        S.cover('off')
        S.check(list(got) == [d], 'straight-on-between-cells', lambda: (x, y, d, got))
    elif off < 0.0001:
        S.cover('on')
        want = legal_moves(lambda c: walls[c[0]][c[1]], p)
        S.check(sorted(got) == sorted(want), 'on-a-cell', lambda: (x, y, d, got))


between.covers = ('off', 'on')


def neighbors(S):
    """also without a border of walls: never outside the board"""
    import game
    w, h = S.pick('shape', [(1, 1), (3, 1), (1, 3), (2, 2), (3, 3)])
    walls = game.Grid(w, h)
    cell = (S.choose('x', w), S.choose('y', h))
    sym = {}
    for d in NAMES:
        c = (cell[0] + VEC[d][0], cell[1] + VEC[d][1])
        if 0 <= c[0] < w and 0 <= c[1] < h:
            sym[c] = S.bool(f'wall{d}')
            walls[c[0]][c[1]] = sym[c]
    got = game.Actions.getLegalNeighbors(cell, walls)
    want = [c for c in sym if not sym[c]]
    S.check(len(got) == len(want) and sorted(got) == sorted(want), 'neighbours', lambda: (cell, got, want))


def around(S):
    """the neighbours of any position are those of the cell nearest to it"""
    import game
    w, h = 4, 3
    x, y = S.real('x', 0, 3), S.real('y', 0, 2)
    near = (int(x + 0.5), int(y + 0.5))
    walls = game.Grid(w, h)
    want = []
    for d in NAMES:
        c = (near[0] + VEC[d][0], near[1] + VEC[d][1])
        if 0 <= c[0] < w and 0 <= c[1] < h:
            walls[c[0]][c[1]] = S.flag(f'wall{d}')
            if not walls[c[0]][c[1]]:
                want.append(c)
    got = game.Actions.getLegalNeighbors((x, y), walls)
    S.check(len(got) == len(want) and sorted(got) == sorted(want), 'neighbours-of-the-nearest-cell', lambda: (x, y, got, want))


def large(S):
    """a wide board with four ghosts: everybody's moves depend on its own place only"""
    w, h = S.pick('size', [(9, 6), (6, 9)])
    ps = [(w - 2, 1), (1, h - 2), (w - 2, h - 2), (4, 3), (3, 4)]
    turn = S.choose('turn', 5)
    ps = ps[turn:] + ps[:turn]
    who = S.choose('who', 5)
    dirs = ['West', 'North', 'South', 'East', 'West']
    cell = ps[who]
    walls = board(S, w, h, cell)
    dirs[who] = d = S.pick('dir', NAMES)
    gs = [Ghost(p, x, S.pick('timer', [0, 7]) if i + 1 == who else 0, (1, 1)) for i, (p, x) in enumerate(zip(ps[1:], dirs[1:]))]
    b = Board(S, w, h, ps[0], dirs[0], gs, walls, {(1, 1): True}, [], 0)
    got = b.state.getLegalActions(who)
    ways = legal_moves(b.wall, cell)
    if who:
        ways = [a for a in ways if a != 'Stop']
        ways = [a for a in ways if a != BACK[d]] or ways if len(ways) > 1 else ways
    S.check(len(got) == len(set(got)) and sorted(got) == sorted(ways), 'legal-pacman-moves' if not who else 'legal-ghost-moves',
            lambda: (cell, d, got, ways))
    for a in NAMES:
        S.check(S.refused(S.attempt(b.state.generateSuccessor, who, a)) == (a not in ways), 'moves-iff-legal', lambda: (cell, a, ways))


SCENARIOS = {'directions': directions, 'vectors': vectors, 'moved': moved, 'nearest': nearest,
             'pacman_legal': pacman_legal, 'ghost_legal': ghost_legal, 'between': between, 'neighbors': neighbors, 'around': around, 'large': large}
