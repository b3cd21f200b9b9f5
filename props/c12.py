"""C12 marginal probabilities of variables"""
from props.common import numbers, Vocab, Spec
from props.spaces import UNEVEN, all_specs, outcomes, graph, total, count_where
from props import large as big

BOUNDS = {'quick': 'up to 4 different outcomes out of all over 2 variables, 2 of all over 3 variables; any asked set of '
                   'variables; counts unbounded positive integers; 14 outcomes over 7 variables',
          'thorough': 'up to 4 outcomes over 2 variables, 3 over 3 variables'}
OUTSIDE = 'rounding of floating point in general (exact reals in the symbolic runs, real floats only in scenario rounded)'
ASSUMPTIONS = ["no value is named like the label of the unobserved share ('u'), except in scenario reserved_label"]


def marginals(S, voc, ps, unobserved):
    g = graph(voc, ps)
    asked = None
    if S.flag('some'):
        asked = set(S.subset('ask', voc.vars))
    got = g.marginal_variables_probability(None if asked is None else set(asked), unobserved)
    t = total(ps)
    check(S, got, ps, [v for v in voc.vars if not asked or v in asked], unobserved, t)


def check(S, got, ps, asked, unobserved, t):
    want = {}
    for v in asked:
        inc = count_where(ps, lambda s: v in s.nodes)
        if any(v in s.nodes for s, _ in ps):
            d = {}
            for s, _ in ps:
                if v in s.nodes:
                    d[s.nodes[v]] = count_where(ps, lambda o: v in o.nodes and o.nodes[v] == s.nodes[v])
            if unobserved:
                d['u'] = t - inc
            want[v] = (d, t if unobserved else inc)
    S.check(set(got) == set(want), 'a-marginal-for-each-asked-variable-that-occurs', lambda: (ps, asked, got))
    for v, (d, norm) in want.items():
        if v in got:
            S.check(set(got[v]) == set(d), 'exactly-the-observed-values', lambda: (ps, v, got[v]))
            acc = 0
            for x in d:
                if x in got[v]:
                    S.eq(got[v][x] * norm, d[x], 'marginal-is-count-over-norm', lambda: (ps, v, x, got[v]))
                    acc = acc + got[v][x]
            S.eq(acc, 1, 'marginal-sums-to-one', lambda: (ps, v, got[v]))


def rounded(S):
    """concrete counts: real floating point division, whose sum is not exactly 1"""
    n = 3 + S.choose('n', 10)
    voc = Vocab(S, 2, n, 1)
    k = S.pick('k', [1, 3, 7, 10 ** 17])
    how = S.choose('how', 3)
    ps = [(Spec({voc.vars[0]: x}, {}), [k, k * (i + 1), k * UNEVEN[n][i]][how]) for i, x in enumerate(voc.vals)]
    ps.append((Spec({voc.vars[1]: voc.vals[0]}, {}), 5))
    un = S.flag('unobserved')
    r = S.attempt(graph(voc, ps).marginal_variables_probability, {voc.vars[0]}, un)
    S.check(not S.refused(r), 'marginals-in-spite-of-rounding', lambda: (ps, r))
    t = total(ps) if un else total(ps) - 5
    d = r[voc.vars[0]]
    S.check(len(d) == n + un and all(abs(d[x] - c / t) < 1e-9 for x, (_, c) in zip(voc.vals, ps)), 'marginal-is-count-over-norm',
            lambda: (ps, d))


def two(S):
    voc = Vocab(S, 2, 2, 1)
    ps = outcomes(S, voc, all_specs(voc, 2, empty=True), 1 + S.choose('n', 4))
    marginals(S, voc, ps, S.flag('unobserved'))


def three(S):
    voc = Vocab(S, 3, 2, 1)
    sh = [((0,), ()), ((1,), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),)), ((0, 1, 2), ((0, 1), (1, 2)))]
    ps = outcomes(S, voc, all_specs(voc, 3, shapes=sh), S.deep(2, 3))
    marginals(S, voc, ps, S.flag('unobserved'))


def conditional(S):
    """marginals of a conditioned graph are those of the selected outcomes"""
    voc = Vocab(S, 2, 2, 1)
    pool = all_specs(voc, 2)
    ps = outcomes(S, voc, pool, 2)
    e = pool[S.choose('e', len(pool))]
    cg = graph(voc, ps).conditional_graph(voc.build(e))
    sel = [(s, c) for s, c in ps if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    if sel:
        check(S, cg.marginal_variables_probability(unobserved=True), sel, voc.vars, True, total(sel))


def reserved_label(S):
    """a value which is called like the label of the unobserved share"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    b = RelationGraphBuilder({'a': {'u', 'k'}, 'b': {'k'}}, {'r'})
    n, m = S.int('n', 1), S.int('m', 1)
    b.add_outcome(b.sample_builder().build_single_node('a', 'u'), n)
    b.add_outcome(b.sample_builder().build_single_node('b', 'k'), m)
    r = S.attempt(b.build().marginal_variables_probability, {'a'}, True)
    S.check(not S.refused(r), 'value-named-like-the-label', lambda: r)


def large(S):
    """a dozen outcomes over 7 variables"""
    voc = big.vocab(S)
    ps = big.many(S, voc)
    un = S.flag('unobserved')
    vs = None if S.flag('all') else {voc.vars[S.choose('v', 7)], voc.vars[0]}
    got = graph(voc, ps).marginal_variables_probability(vs and set(vs), un)
    check(S, got, ps, [v for v in voc.vars if not vs or v in vs], un, total(ps))


SCENARIOS = {'two': two, 'rounded': rounded, 'three': three, 'conditional': conditional, 'reserved_label': reserved_label}
numbers(SCENARIOS, 'two', 'conditional')
SCENARIOS['large'] = large


def many_values(S):
    """a variable of 12 values, most of them observed, counts equal or not"""
    voc = Vocab(S, 2, 12, 1)
    x, k = voc.vals, S.pick('k', [6, 12])
    c = [S.int('n', 1)] * 12 if S.flag('even') else [S.int(f'n{i}', 1) for i in range(12)]
    ps = [(Spec({voc.vars[0]: x[i]}, {}), c[i]) for i in range(k)] + \
        [(Spec({voc.vars[0]: x[i], voc.vars[1]: x[-1 - i]}, {frozenset(voc.vars): voc.rels[0]}), c[i]) for i in range(4)] + \
        [(Spec({voc.vars[1]: x[0]}, {}), S.int('m', 1))]
    un = S.flag('unobserved')
    check(S, graph(voc, ps).marginal_variables_probability(unobserved=un), ps, voc.vars, un, total(ps))


SCENARIOS['many_values'] = many_values
