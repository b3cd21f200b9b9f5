"""C17 factors: recognised, split and refused by the linked pairs of their outcomes"""
from props.common import numbers, Vocab, Spec, items_of, connected_shapes
from props.spaces import all_specs, outcomes, graph, total
from props import large as big

BOUNDS = {'quick': '1-3 outcomes out of all shapes over 3 variables (and single nodes with two values, the empty sample), 2 '
                   'over 4 variables; unbounded positive counts; any order; 14 outcomes over 7 variables', 'thorough': '4 outcomes over 3 variables, 3 over 4'}
OUTSIDE = 'other larger sets'


def key(s):
    return frozenset(s.edges) if s.edges else frozenset(s.nodes)


def check(S, voc, ps):
    g = graph(voc, ps)
    ok = all(s.nodes for s, _ in ps)
    for i, (s, _) in enumerate(ps):
        for t, _ in ps[:i]:
            if key(s) != key(t) and key(s) & key(t):
                ok = False
    S.check(g.is_factorized() == ok, 'factorized-iff-linked-pairs-equal-or-disjoint', lambda: ps)
    r = S.attempt(g.factorized)
    S.check(S.refused(r) != ok, 'split-refused-iff-not-factorized', lambda: (ps, r))
    if ok and not S.refused(r):
        want = {}
        for s, c in ps:
            want.setdefault(key(s), {})[s.elements()] = c
        S.check(len(r) == len(want), 'a-factor-per-set-of-linked-pairs', lambda: (ps, r))
        seen = set()
        for f in r:
            it = items_of(f)
            k = [kk for kk, d in want.items() if set(d) == set(it)]
            S.check(len(k) == 1, 'factor-members', lambda: (ps, f))
            if len(k) == 1:
                seen.add(k[0])
                S.same_map(it, want[k[0]], 'factor-counts', lambda: (ps, f))
        S.check(seen == set(want), 'every-outcome-in-a-factor', lambda: (ps, r))
        t = 0
        for f in r:
            t = t + f.length
        S.eq(t, total(ps), 'factor-totals-add-up')
    joined = all(s.variables() == ps[0][0].variables() for s, _ in ps)
    S.check(g.is_joined() == joined, 'joined-iff-all-outcomes-on-the-same-variables', lambda: ps)


def three(S):
    voc = Vocab(S, 3, 2, 1)
    x, v = voc.vals, voc.vars
    pool = all_specs(voc, 3, values=1, empty=True) + [
        Spec({v[0]: x[1]}, {}), Spec({v[0]: x[1], v[1]: x[0]}, {frozenset(v[:2]): voc.rels[0]}),
        Spec({v[0]: x[1], v[1]: x[0], v[2]: x[0]}, {frozenset({v[0], v[1]}): voc.rels[0], frozenset({v[1], v[2]}): voc.rels[0]})]
    ps = outcomes(S, voc, pool, 1 + S.choose('n', S.deep(3, 4)))
    check(S, voc, list(reversed(ps)) if S.flag('reversed') else ps)


def four(S):
    voc = Vocab(S, 4, 1, 1)
    pool = all_specs(voc, 4, shapes=connected_shapes(4, max_edges=3))
    check(S, voc, outcomes(S, voc, pool, S.deep(2, 3)))


def directed(S):
    """direction and relation do not matter for factors, only which pairs are linked"""
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', directed=True, values=1, shapes=[((0, 1), ((0, 1),)), ((0, 1, 2), ((0, 1), (1, 2)))])
    b = voc.spec('b', directed=True, values=2, shapes=[((0, 1), ((0, 1),)), ((1, 2), ((1, 2),))])
    S.assume(not (a == b))
    check(S, voc, [(a, S.int('n', 1)), (b, S.int('m', 1))])


def nothing(S):
    """a graph without outcomes counts as joined and has no factors"""
    voc = Vocab(S, 2, 2, 1)
    s = Spec({voc.vars[0]: voc.vals[0]}, {})
    e = Spec({voc.vars[0]: voc.vals[1]}, {})
    g = graph(voc, [(s, S.int('n', 1))]).conditional_graph(voc.build(e)).relation_graph()
    S.check(not g.outcomes and g.is_joined() and g.factorized() == frozenset(), 'nothing')


def large(S):
    """up to 15 outcomes in up to 5 factors over 7 variables, perhaps with one which crosses"""
    voc = big.vocab(S)
    specs = [big.path(voc, (0, 1), i, i) for i in range(4)] + [big.path(voc, (1, 2), i, i) for i in range(3)] + \
        [big.path(voc, (2, 3, 4), i) for i in range(3)] + [big.path(voc, (0,), i) for i in range(2)] + [big.path(voc, (5, 6))]
    extra = [big.path(voc, (6,)), big.path(voc, (3, 4)), big.path(voc, (4, 5, 6)), big.path(voc, (4, 5)), big.path(voc, (2, 3, 4), 3)]
    specs += [s for i, s in enumerate(extra) if S.flag(f'has{i}')]
    ps = [(s, S.int(f'n{i}', 1)) for i, s in enumerate(specs)]
    check(S, voc, ps[::-1] if S.flag('reversed') else ps)


def barely(S):
    """outcomes with many links which have one linked pair, some, all or none in common"""
    voc = big.vocab(S)
    sh = big.shapes(voc)
    star = big.spec(voc, {i: 2 for i in (0, 1, 2, 3, 5)}, {(3, i): 0 for i in (0, 1, 2, 5)} | {(0, 5): 1, (1, 5): 2})
    far = big.spec(voc, {0: 0, 2: 0, 4: 1, 6: 1, 1: 0, 3: 2}, {(0, 2): 0, (2, 4): 1, (4, 6): 0, (6, 1): 2, (1, 3): 0})
    ps = [(sh[S.pick('a', [0, 1, 5])], S.int('na', 1)), (S.pick('b', [star, far, sh[2], big.path(voc, (6, 5, 4, 3, 2, 1, 0), 1)]), S.int('nb', 1))]
    check(S, voc, ps[::-1] if S.flag('reversed') else ps)


SCENARIOS = {'three': three, 'four': four, 'directed': directed, 'nothing': nothing}
numbers(SCENARIOS, 'three')
SCENARIOS['large'] = large
SCENARIOS['barely'] = barely
