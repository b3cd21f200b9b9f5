"""C18 joining the factors of a graph gives the product distribution"""
import itertools

from props.common import numbers, Vocab, Spec, items_of, merge_counts
from props.spaces import graph, total

BOUNDS = {'quick': 'factor structures: one link, single node + link, chains of 2 and 3 links, star of 3, ring of 3, a '
                   'three-variable factor with a link, two three-variable factors, ring of 4, chain of 4, chain with single nodes; 2 values per variable (3 for chain2), complete tables, '
                   'every relation symbolic between two, counts unbounded positive integers; two hash layouts and any '
                   'order of variables in the joining loop (up to 3 variables)'
                   '; 5-6 factors over up to 7 variables; 4 values',
          'thorough': 'the same structures with 3 values and 8 hash layouts'}
OUTSIDE = 'incomplete tables other than scenario sparse; rounding does not occur (integers)'
ASSUMPTIONS = ['the graph is factorized and connected, every value of a variable occurs in each factor of the variable']

STRUCT = {
    'link': [((0, 1),)],
    'node_link': [(0,), ((0, 1),)],
    'chain2': [((0, 1),), ((1, 2),)],
    'chain3': [((0, 1),), ((1, 2),), ((2, 3),)],
    'star3': [((0, 1),), ((0, 2),), ((0, 3),)],
    'ring3': [((0, 1),), ((1, 2),), ((0, 2),)],
    'path_link': [((0, 1), (1, 2)), ((2, 3),)],
    'path_path': [((0, 1), (1, 2)), ((0, 2), (2, 3))],
}
MORE = {
    'ring4': [((0, 1),), ((1, 2),), ((2, 3),), ((0, 3),)],
    'chain4': [((0, 1),), ((1, 2),), ((2, 3),), ((3, 4),)],
    'node_chain': [(0,), ((0, 1),), ((1, 2),), (2,)],
}


def table(S, voc, f, fi, vals, rel_of, keep=lambda fi, xs: True):
    """all outcomes of a factor with counts"""
    single = not isinstance(f[0], tuple)
    vs = [f[0]] if single else sorted({v for l in f for v in l})
    out = []
    for xs in itertools.product(range(len(vals)), repeat=len(vs)):
        if not keep(fi, xs):
            continue
        nodes = {voc.vars[v]: vals[x] for v, x in zip(vs, xs)}
        edges = {} if single else {frozenset({voc.vars[a], voc.vars[b]}): rel_of(fi, xs) for a, b in f}
        out.append((Spec(nodes, edges), S.int(f'n{fi}_{"".join(map(str, xs))}', 1)))
    return out


def product(tables):
    out = []
    for combo in itertools.product(*tables):
        nodes, edges, ok, c = {}, {}, True, 1
        for s, n in combo:
            for v, x in s.nodes.items():
                if v in nodes and nodes[v] != x:
                    ok = False
                nodes[v] = x
            edges.update(s.edges)
            c = c * n
        if ok:
            out.append((Spec(nodes, edges), c))
    return out


def run(S, name, struct, nval, hashes=2, orders=0):
    S.hash_orders(hashes)
    nv = 1 + max(v for f in struct for l in f for v in (l if isinstance(l, tuple) else (l,)))
    voc = Vocab(S, nv, nval, 2)
    flip = S.choose('rel', 3)

    def rel_of(fi, xs):
        # one relation for all, one per factor, or one per row
        return voc.rels[[0, fi % 2, sum(xs) % 2][flip]]
    tables = [table(S, voc, f, i, voc.vals, rel_of) for i, f in enumerate(struct)]
    ps = [p for t in tables for p in t]
    g = graph(voc, ps, name='g')
    S.check(g.is_factorized(), 'factorized')
    if orders:
        S.orders(budget=orders, max_size=3, where=['make_joined'])
    name = 'g' if flip else 'joined'
    j = g.make_joined() if flip else g.make_joined('joined')
    check(S, voc, j, tables, name)
    S.same_map(items_of(g.outcomes), {s.elements(): c for s, c in ps}, 'graph-not-changed')


def check(S, voc, j, tables, name='joined'):
    want = merge_counts(product(tables))
    got = items_of(j.outcomes)
    S.check(set(got) == {s.elements() for s, _ in want} and len(j.outcomes.items()) == len(want),
            'joined-outcomes-are-the-matching-combinations', lambda: (want, got))
    for s, c in want:
        if s.elements() in got:
            S.eq(got[s.elements()], c, 'joined-count-is-the-product', lambda: (s, c, got[s.elements()]))
    S.check(j.is_joined(), 'result-is-joined')
    S.eq(j.outcomes.length, total(want), 'joined-total')
    S.check(j.name == name, 'name-kept')


def make(name, struct, nval=2, **k):
    def f(S):
        run(S, name, struct, nval, **k)
    f.__doc__ = f'factors {struct}'
    f.__name__ = name
    return f


def orders2(S):
    """two factors, every order of the joining loop"""
    run(S, 'chain2', STRUCT['chain2'], 2, hashes=1, orders=3)


def orders3(S):
    run(S, 'ring3', STRUCT['ring3'], 2, hashes=1, orders=2)


def sparse(S):
    """incomplete tables of a two-link chain: any rows may be missing as long as both factors know the same values of
    the shared variable"""
    voc = Vocab(S, 3, 2, 1)
    rows = {}

    def keep(fi, xs):
        rows[(fi, xs)] = S.flag(f'row{fi}_{xs[0]}{xs[1]}')
        return rows[(fi, xs)]
    tables = [table(S, voc, f, i, voc.vals, lambda a, b: voc.rels[0], keep) for i, f in enumerate(STRUCT['chain2'])]
    shared = [{x for (fi, xs), on in rows.items() if on and fi == k for x in (xs[1 - k],)} for k in (0, 1)]
    S.assume(shared[0] == shared[1] and shared[0])
    g = graph(voc, [p for t in tables for p in t])
    check(S, voc, g.make_joined('joined'), tables)


def not_joinable(S):
    """not factorized, or not connected: refused"""
    voc = Vocab(S, 4, 1, 1)
    v, x, r = voc.vars, voc.vals[0], voc.rels[0]

    def path(*ix):
        return Spec({v[i]: x for i in ix}, {frozenset({v[a], v[b]}): r for a, b in zip(ix, ix[1:])})
    k = S.choose('case', 5)
    specs = [[path(0, 1), path(0, 1, 2)], [path(0, 1), path(2, 3)], [Spec({}, {}), path(0, 1)],
             [Spec({v[2]: x}, {}), path(0, 1)], [path(0, 1, 2), path(1, 2, 3)]][k]
    ps = [(s, S.int(f'n{i}', 1)) for i, s in enumerate(specs)]
    r = S.attempt(graph(voc, ps).make_joined)
    S.check(S.refused(r), 'not-joinable-refused', lambda: (ps, r and r.outcomes))


LARGE = {
    'chain6': [((i, i + 1),) for i in range(6)],
    'star5': [((0, i),) for i in range(1, 6)],
    'tree': [((0, 1),), ((0, 2),), ((1, 3),), ((1, 4),), ((2, 5),)],
    'ring5': [((i, (i + 1) % 5),) for i in range(5)],
    'mixed': [(0,), ((0, 1), (1, 2)), ((2, 3),), (3,), ((3, 4), (4, 5)), ((0, 5),)],
}


def large(S):
    """5 to 6 factors over up to 7 variables"""
    k = S.pick('structure', list(LARGE))
    run(S, k, LARGE[k], 2)


def values4(S):
    """4 values per variable"""
    run(S, 'values4', [((0, 1),), ((1, 2),)], 4)


SCENARIOS = {n: make(n, s) for n, s in STRUCT.items()}
SCENARIOS.update(orders2=orders2, orders3=orders3, sparse=sparse, not_joinable=not_joinable)


for _n, _s in MORE.items():
    SCENARIOS[_n] = make(_n, _s)
SCENARIOS['values3'] = make('values3', STRUCT['chain2'], 3)


def deep(S):
    """more values and hash layouts"""
    k = S.choose('structure', S.deep(3, len(STRUCT)))
    struct = list(STRUCT.values())[k]
    run(S, 'deep', struct, S.deep(2, 3), hashes=S.deep(4, 8))


SCENARIOS['deep'] = deep
numbers(SCENARIOS, 'node_link', 'chain2', 'star3')
SCENARIOS['large'] = large
SCENARIOS['values4'] = values4
