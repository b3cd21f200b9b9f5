"""D30 a grid of booleans: cells, counting, copies, equality and the packed form"""
BOUNDS = {'quick': 'grids up to 3x2 with every content; packed form of every shape in SHAPES (1 to 64 cells, around the '
                   '30 and 60 cell word ends) with any 4 neighbouring cells over an all-false or all-true background; '
                   'boards of 20x11, 7x9, 28x3, 130x2, 2x260 and 31x31 with any 3 cells',
          'thorough': 'grids up to 4x2; 6 neighbouring cells'}
OUTSIDE = 'larger grids; packing of arbitrary contents beyond a window of neighbouring cells'

SHAPES = [(1, 1), (2, 3), (3, 2), (5, 6), (6, 5), (29, 1), (1, 30), (31, 1), (4, 8), (2, 30), (10, 6), (61, 1), (8, 8)]


def fill(S, g, name='c'):
    cells = {}
    for x in range(g.width):
        for y in range(g.height):
            cells[x, y] = S.bool(f'{name}{x}_{y}')
            g[x][y] = cells[x, y]
    return cells


def small(S):
    import game
    w, h = S.pick('shape', [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + S.deep([], [(4, 2)]))
    init = S.flag('init')
    g = game.Grid(w, h, init)
    S.check(all(g[x][y] is init for x in range(w) for y in range(h)) and g.width == w and g.height == h, 'initial')
    cells = fill(S, g)
    true = [c for c in cells if cells[c]]
    S.check(sorted(g.asList()) == sorted(true), 'as-list', lambda: (cells, g.asList()))
    S.check(sorted(g.asList(False)) == sorted(c for c in cells if not cells[c]), 'as-list', lambda: (cells, g.asList(False)))
    S.check(g.count() == len(true) and g.count(True) == len(true) and g.count(False) == w * h - len(true), 'count',
            lambda: (cells, g.count(), g.count(False)))
    lines = str(g).split('\n')
    S.check(lines == [''.join('T' if cells[x, y] else 'F' for x in range(w)) for y in reversed(range(h))], 'text',
            lambda: (cells, lines))
    x, y = S.choose('x', w), S.choose('y', h)
    for name, c in (('copy', g.copy()), ('deep', g.deepCopy())):
        S.check(c == g and hash(c) == hash(g) and (c.width, c.height) == (w, h), 'copy-equal', name)
        c[x][y] = False if c[x][y] else True
        S.check(all(g[i][j] == cells[i, j] for i, j in cells), 'copy-independent', name)
        S.check(not (c == g) and c != g, 'equal-iff-same-cells', name)


def equality(S):
    import game
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2)]
    a = game.Grid(*S.pick('s', shapes))
    b = game.Grid(*S.pick('t', shapes))
    ca, cb = fill(S, a, 'a'), fill(S, b, 'b')
    same = ca == cb
    S.check((a == b) == same, 'equal-iff-same-cells', lambda: (ca, cb))
    if same:
        S.check(hash(a) == hash(b), 'equal-hash')
    S.check(not (a == None), 'none')  # noqa: E711


def packed(S):
    import game
    w, h = S.pick('shape', SHAPES)
    n, k = w * h, S.deep(4, 6)
    back = S.flag('background')
    g = game.Grid(w, h, back)
    at = S.choose('at', max(1, n - k + 1))
    for i in range(at, min(n, at + k)):
        g[i // h][i % h] = S.bool(f'c{i - at}')
    bits = g.packBits()
    S.check(isinstance(bits, tuple) and all(isinstance(b, int) and 0 <= b < 2 ** 30 for b in bits[2:]), 'packed-ints', lambda: bits)
    S.check(bits[:2] == (w, h), 'packed-size', lambda: bits)
    r = game.reconstituteGrid(bits)
    S.check((r.width, r.height) == (w, h) and r == g and hash(r) == hash(g), 'round-trip', lambda: (str(g), bits, str(r)))
    S.check(all(type(v) is bool for c in r.data for v in c), 'round-trip-booleans')
    S.check(r.packBits() == bits, 'pack-again', lambda: (bits, r.packBits()))
    S.check(game.reconstituteGrid(g) is g, 'grid-stays')


def packed_other(S):
    """different grids have different packed forms"""
    import game
    w, h = S.pick('shape', [(5, 6), (31, 1), (4, 8), (2, 3), (61, 1)])
    n = w * h
    a, b = game.Grid(w, h), game.Grid(w, h)
    i, j = S.choose('i', n), S.choose('j', n)
    a[i // h][i % h] = True
    b[j // h][j % h] = True
    S.check((a.packBits() == b.packBits()) == (i == j), 'packed-injective', lambda: (i, j))
    S.check(hash(a) == hash(b) if i == j else True, 'equal-hash')


def refused(S):
    import game
    S.check(S.refused(S.attempt(game.Grid, 2, 2, S.pick('v', ['x', None, 2, {}]))), 'only-booleans')


def large(S):
    """grids of the size of real boards: any three cells over any background"""
    import game
    w, h = S.pick('shape', [(20, 11), (7, 9), (28, 3), (130, 2), (2, 260), (31, 31)])
    back = S.flag('background')
    g = game.Grid(w, h, back)
    n = w * h
    at = [0, n // 2 + 1, n - 1]
    cells = {(x, y): back for x in range(w) for y in range(h)}
    for k, i in enumerate(at):
        c = (i // h, i % h)
        cells[c] = S.bool(f'c{k}')
        g[c[0]][c[1]] = cells[c]
    true = [c for c in cells if cells[c]]
    S.check(sorted(g.asList()) == true and sorted(g.asList(False)) == [c for c in cells if c not in set(true)], 'as-list')
    S.check(g.count() == len(true) and g.count(False) == n - len(true), 'count', lambda: (true, g.count(), g.count(False)))
    S.check(str(g).split('\n') == [''.join('T' if (x, y) in set(true) else 'F' for x in range(w)) for y in reversed(range(h))], 'text')
    bits = g.packBits()
    r = game.reconstituteGrid(bits)
    S.check(bits[:2] == (w, h) and len(bits) == 2 + -(-n // 30) and r == g and hash(r) == hash(g), 'round-trip', lambda: (w, h, bits))
    i = S.pick('at', [0, 29, 30, 59, 60, n - 1])
    for name, c in (('copy', g.copy()), ('deep', g.deepCopy()), ('packed', r)):
        S.check(c == g and hash(c) == hash(g) and (c.width, c.height) == (w, h), 'copy-equal', name)
        c[i // h][i % h] = False if c[i // h][i % h] else True
        S.check(all(g[x][y] == cells[x, y] for x, y in cells), 'copy-independent', name)
        S.check(not (c == g) and c != g, 'equal-iff-same-cells', name)
        S.check(c.packBits() != bits, 'packed-injective', name)


SCENARIOS = {'small': small, 'equality': equality, 'packed': packed, 'packed_other': packed_other, 'refused': refused, 'large': large}
packed_other.weight = 0.5
