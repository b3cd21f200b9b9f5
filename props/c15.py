"""C15 the activation graph weighs values by evidence and similarity"""
from props.common import numbers, Vocab, Spec
from props.spaces import all_specs, outcomes, graph, total
from props.c07 import ref_external, filters
from props.c14 import selected
from props.common import merge_counts
from props import large as big

BOUNDS = {'quick': '1-2 outcomes over 3 variables (4 in scenario far) around evidence of 1-2 variables, any relation '
                   'filter; unbounded positive counts; 14 outcomes over 7 variables', 'thorough': '3 outcomes, evidence of up to 3 variables'}
OUTSIDE = 'empty evidence, evidence which selects no outcome (both refused by the code)'


def similarity(a, b):
    x, y = a.elements(), b.elements()
    return len(x & y) / len(x | y)


def check(S, voc, ag, ps, e, flt):
    sel = selected(ps, e)
    t = total(sel)
    S.eq(ag.number_of_outcomes, t, 'number-of-outcomes')
    S.check({n.variable for n in ag.nodes} == set(voc.vars) and len(ag.nodes) == len(voc.vars),
            'a-node-per-declared-variable', lambda: ag.nodes)
    weights = {(v, x): 0 for v in voc.vars for x in voc.vals}
    links = {}
    inner = e.node_set()
    for s, c in sel:
        for n in inner & s.node_set():
            weights[n] = weights[n] + c
        for k in e.edge_set() & s.edge_set():
            ends = frozenset(v for v, _ in k[0])
            links.setdefault((ends, True), {})
            links[(ends, True)][k[1]] = links[(ends, True)].get(k[1], 0) + c
        ext = ref_external(s, inner, flt)
        for n in ext:
            weights[n] = weights[n] + c * exact(similarity_pair(s, e))
        for k in {k for ks in ext.values() for k in ks}:
            ends = frozenset(v for v, _ in k[0])
            links.setdefault((ends, False), {})
            links[(ends, False)][k[1]] = links[(ends, False)].get(k[1], 0) + c
    for n in ag.nodes:
        S.check(n.in_query == (n.variable in e.nodes), 'evidence-variables-marked', lambda: (e, n))
        got = dict(n.values)
        S.check(set(got) == set(voc.vals) and len(n.values) == len(voc.vals), 'a-weight-per-declared-value',
                lambda: n.values)
        for x in got:
            S.eq(got[x] * t, weights[(n.variable, x)], 'weight', lambda: (ps, e, flt, n, weights))
            S.check(got[x] >= 0 and got[x] <= 1, 'weight-range', lambda: (ps, e, n))
    S.check({(ed.endpoints, ed.in_query) for ed in ag.edges} == set(links) and len(ag.edges) == len(links),
            'an-edge-per-active-pair', lambda: (ps, e, flt, ag.edges, links))
    for ed in ag.edges:
        want = links.get((ed.endpoints, ed.in_query))
        if want is not None:
            got = dict(ed.relations)
            S.check(len(got) == len(ed.relations), 'relation-counts', lambda: ed.relations)
            S.same_map(got, want, 'relation-counts', lambda: (ps, e, flt, ed, want))


def similarity_pair(a, b):
    x, y = a.elements(), b.elements()
    return len(x & y), len(x | y)


def exact(p):
    from fractions import Fraction
    return Fraction(*p)


def three(S):
    """evidence: a node or a link; outcomes: containing it or elsewhere"""
    voc = Vocab(S, 3, 2, 2)
    v, x, r = voc.vars, voc.vals, voc.rels
    e = Spec({v[0]: x[0]}, {}) if S.flag('node') else Spec({v[0]: x[0], v[1]: x[0]}, {frozenset({v[0], v[1]}): r[0]})
    pool = [s for s in all_specs(voc, 3, values=1 if S.tier == 'quick' else 2)
            if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    ps = outcomes(S, voc, pool, 1 + S.choose('n', S.deep(2, 2)))
    flt = [None, {r[0]}, {r[1]}, {r[0], r[1]}, set()][S.choose('filter', 5)]
    g = graph(voc, ps)
    ag = g.conditional_graph(voc.build(e)).activation_graph(None if flt is None else set(flt), name='act')
    S.check(ag.name == 'act', 'name-kept')
    check(S, voc, ag, ps, e, flt)


def far(S):
    """four variables: outcomes reach further than one link from the evidence; unrelated outcomes are counted as such"""
    voc = Vocab(S, 4, 1, 2)
    v, x, r = voc.vars, voc.vals[0], voc.rels
    e = S.pick('e', [Spec({v[0]: x}, {}), Spec({v[0]: x, v[1]: x}, {frozenset({v[0], v[1]}): r[0]}),
                     Spec({v[0]: x, v[1]: x, v[2]: x}, {frozenset({v[0], v[1]}): r[0], frozenset({v[1], v[2]}): r[1]})])
    sh = [((0, 1, 2, 3), ((0, 1), (1, 2), (2, 3))), ((0, 1, 2, 3), ((0, 1), (1, 2), (0, 3))),
          ((0, 1, 2, 3), ((0, 1), (1, 2), (2, 3), (0, 3))), ((0, 1, 2), ((0, 1), (1, 2))),
          ((2, 3), ((2, 3),)), ((3,), ())]
    pool = [s for s in all_specs(voc, 4, shapes=sh)
            if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    ps = outcomes(S, voc, pool, 1 + S.choose('n', 2))
    flt = [None, {r[0]}, {r[1]}][S.choose('filter', 3)]
    ag = graph(voc, ps).conditional_graph(voc.build(e)).activation_graph(flt)
    check(S, voc, ag, ps, e, flt)


def values(S):
    """several values of an external variable share the weight"""
    voc = Vocab(S, 2, 3, 1)
    v, x, r = voc.vars, voc.vals, voc.rels
    e = Spec({v[0]: x[0]}, {})
    pool = [e] + [Spec({v[0]: x[0], v[1]: y}, {frozenset(v): r[0]}) for y in x] + [Spec({v[1]: x[0]}, {})] + \
        [Spec({v[0]: x[1]}, {}), Spec({v[0]: x[1], v[1]: x[0]}, {frozenset(v): r[0]})]
    ps = outcomes(S, voc, pool, 1 + S.choose('n', 4))
    S.assume(selected(ps, e))
    cg = graph(voc, ps).conditional_graph(voc.build(e), name=S.pick('name', [None, 'mine']))
    ag = cg.activation_graph()
    S.check(ag.name == cg.name, 'named-like-the-graph')
    check(S, voc, ag, ps, e, None)


def large(S):
    """outcomes of up to 7 variables around evidence of 1 to 4"""
    voc = big.vocab(S)
    ps = big.many(S, voc) + [(s, S.int(f'l{i}', 1)) for i, s in enumerate(big.shapes(voc)[:2])]
    ps = merge_counts(ps)
    e = S.pick('e', [big.path(voc, (0,)), big.path(voc, (0, 1)), big.path(voc, (0, 1, 2)), big.path(voc, (0, 1, 2, 3)), big.path(voc, (4, 5)),
                     big.path(voc, (6,))])
    flt = [None, {voc.rels[0]}, {voc.rels[1], voc.rels[2]}][S.choose('filter', 3)]
    ag = graph(voc, ps).conditional_graph(voc.build(e)).activation_graph(flt)
    check(S, voc, ag, ps, e, flt)


def many_relations(S):
    """one pair of variables linked in every way there is: 4 values, 3 relations, plain and both arrows"""
    voc = big.vocab(S)
    v, x, r = voc.vars, voc.vals, voc.rels
    kinds = list(r) + [voc.directed(v[0], v[1], q) for q in r] + [voc.directed(v[1], v[0], q) for q in r]
    first = S.choose('first', 3)
    ps = [(Spec({v[0]: x[0], v[1]: x[i % 4], v[2]: x[0]},
                {frozenset({v[0], v[1]}): k, frozenset({v[1], v[2]}): r[first]}), S.int(f'n{i}', 1)) for i, k in enumerate(kinds)]
    e = S.pick('e', [big.path(voc, (0,)), big.path(voc, (2,), -2), ps[4][0]])
    flt = S.pick('filter', [None, set(kinds[2:6]), set(kinds[:8])])
    ag = graph(voc, ps).conditional_graph(voc.build(e)).activation_graph(flt)
    check(S, voc, ag, ps, e, flt)


SCENARIOS = {'three': three, 'far': far, 'values': values}
numbers(SCENARIOS, 'three', 'values')
SCENARIOS['large'] = large
SCENARIOS['many_relations'] = many_relations


def many_values(S):
    """12 values of an external variable, reached from one node of evidence"""
    voc = Vocab(S, 3, 12, 1)
    v, x = voc.vars, voc.vals
    c = [S.int('n', 1)] * 12 if S.flag('even') else [S.int(f'n{i}', 1) for i in range(12)]
    ps = [(Spec({v[0]: x[0], v[1]: x[i], v[2]: x[i // 3]}, {frozenset({v[0], v[1]}): voc.rels[0], frozenset({v[1], v[2]}): voc.rels[0]}), c[i])
          for i in range(12)] + [(Spec({v[1]: x[2]}, {}), S.int('m', 1)), (Spec({v[2]: x[0]}, {}), S.int('k', 1))]
    e = Spec({v[0]: x[0]}, {})
    check(S, voc, graph(voc, ps).conditional_graph(voc.build(e)).activation_graph(), ps, e, None)


SCENARIOS['many_values'] = many_values
