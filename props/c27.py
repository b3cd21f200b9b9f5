"""C27 inference in a factorized graph is exact: it agrees with the product of the factors (a Bayes or Markov network)"""
import itertools

from props.common import numbers, Vocab, Spec, items_of, merge_counts
from props.spaces import graph, total

BOUNDS = {'quick': 'networks: prior + child, chain of 3, common effect of 2 and common cause of 2 with priors, diamond, '
                   'student network (5 variables), Markov ring of 4 and tree of 5; 2 values per variable (3 in values3), '
                   'every table entry an unbounded positive integer (the student network: two of its five tables); links plain or '
                   'directed; every single observation and every ordered pair of observations, the second before or after '
                   'joining; two hash layouts',
          'thorough': 'up to 3 observations in a row, 3 values, 4 hash layouts'}
OUTSIDE = 'incomplete tables; evidence of more than one node at once (conditioning on it: C14); rounding'
ASSUMPTIONS = ['every factor has a row for every combination of values, the factors are connected']

NETS = {
    'child': [(0,), (1, 0)],
    'chain': [(0,), (1, 0), (2, 1)],
    'effect': [(0,), (1,), (2, 0, 1)],
    'cause': [(0,), (1, 0), (2, 0)],
    'diamond': [(0,), (1, 0), (2, 0), (3, 1, 2)],
    'ring': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'tree': [(0, 1), (0, 2), (2, 3), (2, 4)],
    'student': [(0,), (1,), (2, 0, 1), (3, 1), (4, 2)],
}


def rows(voc, f, rel):
    """the samples of the table of variable f[0] given f[1:]"""
    for xs in itertools.product(voc.vals, repeat=len(f)):
        nodes = {voc.vars[v]: x for v, x in zip(f, xs)}
        yield xs, Spec(nodes, {frozenset({voc.vars[p], voc.vars[f[0]]}): rel(p, f[0]) for p in f[1:]})


def net(S, name, nval=2, fixed=(), hashes=2):
    fs = NETS[name]
    S.hash_orders(hashes)
    voc = Vocab(S, 1 + max(v for f in fs for v in f), nval, 1)
    d = S.flag('directed')

    def rel(p, v):
        return voc.directed(voc.vars[p], voc.vars[v], voc.rels[0]) if d else voc.rels[0]
    tables = []
    for i, f in enumerate(fs):
        t = []
        for k, (xs, s) in enumerate(rows(voc, f, rel)):
            t.append((s, 1 + (5 * k + 3 * i) % 7 if i in fixed else S.int(f'n{i}_{k}', 1)))
        tables.append(t)
    return voc, tables, graph(voc, [p for t in tables for p in t], name='net')


def product(tables):
    out = [({}, {}, 1)]
    for t in tables:
        out = [({**n, **s.nodes}, {**e, **s.edges}, c * m) for n, e, c in out for s, m in t
               if all(n.get(v, x) == x for v, x in s.nodes.items())]
    return [(Spec(n, e), c) for n, e, c in out]


def check(S, voc, joined, joint):
    """a joined graph has exactly these outcomes and the marginals which follow"""
    want = merge_counts(joint)
    got = items_of(joined.outcomes)
    S.check(set(got) == {s.elements() for s, _ in want}, 'joined-outcomes-are-those-of-the-product', lambda: (want, got))
    for s, c in want:
        if s.elements() in got:
            S.eq(got[s.elements()], c, 'joined-count-is-the-product', lambda: (s, c, got[s.elements()]))
    z = total(want)
    m = joined.marginal_variables_probability()
    vs = {v for s, _ in want for v in s.nodes}
    S.check(set(m) == vs, 'a-marginal-of-each-variable', lambda: (vs, m))
    for v in vs & set(m):
        xs = {s.nodes[v] for s, _ in want}
        S.check(set(m[v]) == xs, 'a-probability-of-each-value-left', lambda: (v, xs, m))
        for x in xs & set(m[v]):
            t = 0
            for s, c in want:
                if s.nodes[v] == x:
                    t = t + c
            S.eq(m[v][x] * z, t, 'probability-is-the-exact-posterior', lambda: (v, x, m[v]))
    return m


def observed(joint, ev):
    return [(s, c) for s, c in joint if all(s.nodes[v] == x for v, x in ev)]


def run(S, name, n_obs, **k):
    voc, tables, g = net(S, name, **k)
    joint = product(tables)
    ev = []
    cur, early = g, False
    left = list(voc.vars)
    for i in range(n_obs):
        v = left.pop(S.choose(f'v{i}', len(left)))
        x = S.pick(f'x{i}', voc.vals)
        ev.append((v, x))
        if not early and S.flag(f'join{i}'):
            cur, early = cur.make_joined(), True
        e = voc.build(Spec({v: x}, {}))
        cur = cur.conditional_graph(e).relation_graph()
    check(S, voc, cur if early else cur.make_joined(), observed(joint, ev))


def make(name, n_obs, **k):
    def f(S):
        run(S, name, n_obs, **k)
    f.__doc__ = f'{name} network, {n_obs} observations'
    f.__name__ = f'{name}_{n_obs}'
    return f


SCENARIOS = {}
for _n, _o, _k in [('child', 0, {}), ('child', 1, {}), ('chain', 1, {}), ('chain', 2, {}), ('effect', 1, {}), ('effect', 2, {}),
                   ('cause', 1, {}), ('cause', 2, {}), ('diamond', 1, {}), ('ring', 1, {}), ('ring', 2, {}),
                   ('tree', 1, {}), ('student', 1, dict(fixed=(0, 1, 3)))]:
    SCENARIOS[f'{_n}_{_o}'] = make(_n, _o, **_k)


def separated(S):
    """a proper conditional table (its columns have the same sum): without observation of the effect the causes keep their
    prior probabilities, whatever is observed of the other cause"""
    voc = Vocab(S, 3, 2, 1)
    k = S.int('k', 2)
    v, x = voc.vars, voc.vals
    prior = [[S.int(f'p{i}{j}', 1) for j in (0, 1)] for i in (0, 1)]
    ps = [(Spec({v[i]: x[j]}, {}), prior[i][j]) for i in (0, 1) for j in (0, 1)]
    for a in (0, 1):
        for b in (0, 1):
            n = S.int(f'n{a}{b}', 1)
            S.assume(n < k)
            for c, m in ((0, n), (1, k - n)):
                ps.append((Spec({v[0]: x[a], v[1]: x[b], v[2]: x[c]},
                                {frozenset({v[i], v[2]}): voc.directed(v[i], v[2], voc.rels[0]) for i in (0, 1)}), m))
    g = graph(voc, ps)
    if S.flag('observed'):
        g = g.conditional_graph(voc.build(Spec({v[1]: S.pick('e', x)}, {}))).relation_graph()
    m = g.make_joined().marginal_variables_probability()
    for j in (0, 1):
        S.eq(m[v[0]][x[j]] * (prior[0][0] + prior[0][1]), prior[0][j], 'prior-kept', lambda: m)


def late(S):
    """joining first and observing in the joined graph is the same as observing in the factors"""
    name = S.pick('net', ['chain', 'effect', 'ring'])
    voc, tables, g = net(S, name, hashes=1)
    v = S.pick('v', voc.vars)
    e = voc.build(Spec({v: S.pick('x', voc.vals)}, {}))
    a = g.conditional_graph(e).relation_graph().make_joined()
    b = g.make_joined().conditional_graph(e)
    S.same_map(items_of(a.outcomes), items_of(b.outcomes), 'early-and-late-observation-agree')
    S.check(a.relation_graph().outcomes == b.outcomes, 'early-and-late-sets-equal')


def values3(S):
    run(S, S.pick('net', ['chain', 'effect']), 1, nval=3, hashes=1)


def deep(S):
    """more observations, more values"""
    n = S.pick('net', list(NETS))
    if S.deep(0, 1):
        big = n in ('diamond', 'tree', 'student')
        run(S, n, 1 + S.choose('obs', 2 if big else 3), nval=2 if n in ('student', 'tree', 'diamond', 'ring') else 2 + S.choose('values', 2),
            fixed=(0, 1, 3) if n == 'student' else (), hashes=2 if big else 4)
    else:
        run(S, n, 0, fixed=(0, 1, 3) if n == 'student' else ())


SCENARIOS.update(separated=separated, late=late, values3=values3, deep=deep)
numbers(SCENARIOS, 'child_1', 'chain_1', 'effect_1', 'ring_1')
