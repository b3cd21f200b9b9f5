"""D48 small helpers of the demo"""
import sys
import types
from props.board import truth

BOUNDS = {'quick': 'any real number; matrices of up to 3x3 with any booleans; boards of 3x2 cells with any walls and up to 3 draws; '
                   'namespaces of up to 2 modules and 2 own names; matrices, grids and boards up to 9x6',
          'thorough': 'matrices of up to 4x4; 4 draws'}
OUTSIDE = 'util.pause; the table of FixedRandom'


def sign(S):
    import util
    x = S.real('x') if S.flag('real') else S.int('x')
    r = util.sign(x)
    S.check(r == (1 if truth(x >= 0) else -1), 'sign', lambda: (x, r))


def matrix(S):
    """transposed; the cells with a value"""
    import util
    n, m = 1 + S.choose('rows', S.deep(3, 4)), 1 + S.choose('columns', S.deep(3, 4))
    kind = S.pick('kind', ['booleans', 'numbers'])
    a = [[S.bool(f'a{i}{j}') if kind == 'booleans' else S.int(f'n{i}{j}', -2, 2) for j in range(m)] for i in range(n)] \
        if kind == 'booleans' or n * m <= 4 else [[(i * 3 + j) % 4 for j in range(m)] for i in range(n)]
    if S.flag('transpose'):
        t = util.arrayInvert(a)
        S.check(len(t) == m and all(len(r) == n for r in t), 'transposed-size', lambda: (n, m, t))
        S.check(all(t[j][i] is a[i][j] for i in range(n) for j in range(m)), 'transposed', lambda: (n, m))
    else:
        v = S.flag('value') if kind == 'booleans' else S.pick('number', [0, 1, 2])
        if S.flag('default'):
            v, got = True, util.matrixAsList(a)
        else:
            got = util.matrixAsList(a, v)
        S.check(got == [(i, j) for i in range(n) for j in range(m) if truth(a[i][j] == v)], 'cells-with-the-value', lambda: got)


def lookup(S):
    """a name of the namespace or of one of its modules, or of a module by its path; anything else is refused"""
    import util
    mods = []
    for n in ('ma', 'pk', 'pk.mb'):
        m = types.ModuleType(n)
        mods.append(m)
        sys.modules[n] = m
    mods[1].mb, mods[1].__path__ = mods[2], []
    ns = {}
    found = []
    for i, m in enumerate(mods):
        if S.flag(f'has{i}'):
            m.wanted = (0,) if i == 1 and S.flag('same') else (i,)
    for i in (0, 1):
        if S.flag(f'in{i}'):
            ns[f'm{i}'] = mods[i]
            if hasattr(mods[i], 'wanted'):
                found.append(mods[i].wanted)
    ns['other'] = 5
    if S.flag('own'):
        ns['wanted'] = 'own'
        found.append('own')
    name = S.pick('name', ['wanted', 'ma.wanted', 'pk.wanted', 'pk.mb.wanted'])
    r = S.attempt(util.lookup, name, ns)
    if name == 'wanted':
        want = found[0] if len(found) == 1 else None
    else:
        m = sys.modules[name.rsplit('.', 1)[0]]
        want = getattr(m, 'wanted', None)
    det = lambda: (name, found, want, r)
    for n in ('ma', 'pk', 'pk.mb'):
        del sys.modules[n]
    S.check(S.refused(r) if want is None else r == want, 'the-only-one-of-that-name', det)


def random_place(S):
    """a random legal position is never a wall, and every free cell can be drawn"""
    import layout
    w, h = 3, 2
    free = [(x, y) for x in range(w) for y in range(h) if not S.flag(f'wall{x}{y}')]
    S.assume(free)
    rows = [''.join(' ' if (x, y) in free else '%' for x in range(w)) for y in range(h)][::-1]
    lay = layout.Layout(rows)
    n = S.deep(3, 4)
    draws = []

    def choice(seq):
        if len(draws) >= 2 * n:
            S.assume(False)
        draws.append(S.pick(f'r{len(draws)}', list(seq)))
        return draws[-1]
    import random
    S.patch(random, 'choice', choice)
    S.patch(random, 'randrange', lambda *a: choice(range(*a)))
    S.patch(random, 'randint', lambda a, b: choice(range(a, b + 1)))
    p = lay.getRandomLegalPosition()
    S.check(tuple(p) in free, 'a-free-cell', lambda: (rows, draws, p))
    S.check(draws[-1] == tuple(p) or isinstance(draws[-1], int) and sorted(draws[-2:]) == sorted(p), 'the-drawn-cell', lambda: (rows, draws, p))


def texts(S):
    """texts of agents and configurations tell which one it is"""
    import game
    x, y = S.choose('x', 4), S.pick('y', [1, 2.5])
    d = S.pick('d', ['North', 'Stop'])
    c = game.Configuration((x, y), d)
    t = str(c)
    S.check(str((x, y)) in t and d in t, 'configuration-text', lambda: t)
    for p in (True, False):
        a = game.AgentState(c, p)
        S.check(str(a) == ('Pacman: ' if p else 'Ghost: ') + t, 'agent-text', lambda: str(a))


def columns(S):
    """a column of a grid can be replaced, and nothing else changes"""
    import game
    w, h = 3, 2
    g = game.Grid(w, h)
    want = [[S.bool(f'c{x}{y}') for y in range(h)] for x in range(w)]
    for x in range(w):
        for y in range(h):
            g[x][y] = want[x][y]
    k = S.choose('k', w)
    want[k] = [S.bool(f'n{y}') for y in range(h)]
    g[k] = list(want[k])
    S.check(all(truth(g[x][y]) == truth(want[x][y]) for x in range(w) for y in range(h)), 'column-replaced', lambda: str(g))


def fixed(S):
    """a fixed random source always gives the same numbers"""
    import util
    a, b = util.FixedRandom().random, util.FixedRandom().random
    n = 1 + S.choose('n', 3)
    k = [S.choose(f'k{i}', 3) for i in range(n)]
    S.check(all([lambda r: r.random(), lambda r: r.randint(0, 99), lambda r: r.choice('abc')][j](a)
                == [lambda r: r.random(), lambda r: r.randint(0, 99), lambda r: r.choice('abc')][j](b) for j in k), 'always-the-same', lambda: k)


def large(S):
    """larger matrices, grids and boards"""
    import util
    import game
    import layout
    n, m = S.pick('size', [(6, 9), (9, 6), (1, 8), (8, 1), (2, 24), (24, 2)])
    bits = [[(i * 7 + j * 3) % 4 == 0 for j in range(m)] for i in range(n)]
    i, j = S.choose('i', n), S.choose('j', m)
    bits[i][j] = S.bool('b')
    t = util.arrayInvert(bits)
    S.check(len(t) == m and all(len(r) == n for r in t) and all(t[q][p] is bits[p][q] for p in range(n) for q in range(m)), 'transposed', lambda: (n, m))
    got = util.matrixAsList(bits)
    S.check(got == [(p, q) for p in range(n) for q in range(m) if truth(bits[p][q])], 'cells-with-the-value', lambda: got)
    g = game.Grid(n, m)
    for p in range(n):
        g[p] = list(bits[p])
    new = [not truth(v) for v in bits[i]]
    g[i] = list(new)
    S.check(all(truth(g[p][q]) == (new[q] if p == i else truth(bits[p][q])) for p in range(n) for q in range(m)), 'column-replaced')
    rows = [''.join('%' if (x, y) != (i, j) else ' ' for x in range(n)) for y in range(m)][::-1]
    import random
    draws = []

    def choice(seq):
        seq = list(seq)
        draws.append(0)
        # all other places first, the free one last
        if len(draws) > 4 * n * m:
            S.assume(False)
        return pick(seq, len(draws) - 1)

    def pick(seq, k):
        if isinstance(seq[0], tuple):
            return seq[k % len(seq)]
        return seq[k // 2 // m % len(seq)] if len(seq) == n and k % 2 == 0 else seq[k // 2 % len(seq)]
    S.patch(random, 'choice', choice)
    if n != m:
        p = lay_pos(layout.Layout(rows))
        S.check(p == (i, j), 'a-free-cell', lambda: (rows, p))


def lay_pos(lay):
    return tuple(lay.getRandomLegalPosition())


SCENARIOS = {'sign': sign, 'matrix': matrix, 'lookup': lookup, 'random_place': random_place, 'texts': texts, 'columns': columns, 'fixed': fixed, 'large': large}
