"""C13 the folded graph counts every value and every relation exactly"""
from props.common import numbers, Vocab, Spec
from props.spaces import all_specs, outcomes, graph, total, count_where
from props import large as big

BOUNDS = {'quick': '1-3 outcomes out of all over 2 variables with 2 relations and an arrow, 2 outcomes over 3 variables; '
                   'counts unbounded positive integers; 14 outcomes over 7 variables', 'thorough': '1-4 outcomes over 2 variables, 3 over 3 variables'}
OUTSIDE = 'rounding of floating point (exact reals in the symbolic run)'
ASSUMPTIONS = ["no value is named like the label of the unobserved share ('unobserved'), except in scenario "
               "reserved_label"]


def ek(e):
    return frozenset((n.variable, n.value) for n in e.endpoints), e.relation


def check(S, voc, f, ps):
    t = total(ps)
    S.eq(f.number_of_outcomes, t, 'number-of-outcomes')
    occur = [v for v in voc.vars if any(v in s.nodes for s, _ in ps)]
    S.check(f.variables == frozenset(occur), 'a-node-per-occurring-variable', lambda: (ps, f.variables))
    S.check(len(f.nodes) == len(occur) and {n.variable for n in f.nodes} == set(occur), 'a-node-per-occurring-variable',
            lambda: (ps, f.nodes))
    for v in voc.vars:
        n = f.folded_node(v)
        if v not in occur:
            S.check(n is None, 'no-node-for-an-absent-variable', lambda: (ps, v))
            continue
        S.check(n is not None and n in f.nodes and n.variable == v, 'node-found-by-variable', lambda: (ps, v, n))
        S.check(n.values == frozenset(voc.vals), 'node-knows-all-declared-values', lambda: (v, n.values))
        want = {}
        for s, _ in ps:
            if v in s.nodes:
                want[s.nodes[v]] = count_where(ps, lambda o: v in o.nodes and o.nodes[v] == s.nodes[v])
        got = {vn.value: c for vn, c in n.value_nodes}
        S.check(all(vn.variable == v for vn, _ in n.value_nodes) and len(n.value_nodes) == len(want),
                'value-counts', lambda: (ps, v, n.value_nodes))
        S.same_map(got, want, 'value-counts', lambda: (ps, v, got))
        inc = count_where(ps, lambda s: v in s.nodes)
        S.eq(n.unobserved_count(), t - inc, 'unobserved-count', lambda: (ps, v))
        md = n.marginal_distribution()
        S.check(set(md) == set(voc.vals) | {'unobserved'}, 'distribution-has-every-declared-value', lambda: (ps, v, md))
        acc = 0
        for x in voc.vals:
            S.eq(md[x] * t, want.get(x, 0), 'distribution-is-count-over-total', lambda: (ps, v, x, md))
        S.eq(md['unobserved'] * t, t - inc, 'distribution-unobserved-share', lambda: (ps, v, md))
        for x in md:
            acc = acc + md[x]
        S.eq(acc, 1, 'distribution-sums-to-one', lambda: (ps, v, md))
    pairs = {}
    for s, c in ps:
        for ends, r in s.edges.items():
            k = (frozenset((v, s.nodes[v]) for v in ends), r)
            d = pairs.setdefault(ends, {})
            d[k] = d.get(k, 0) + c
    S.check({e.endpoints for e in f.edges} == set(pairs) and len(f.edges) == len(pairs), 'an-edge-per-linked-pair',
            lambda: (ps, f.edges))
    for e in f.edges:
        if e.endpoints in pairs:
            got = {ek(re): c for re, c in e.relation_edges}
            S.check(len(got) == len(e.relation_edges), 'relation-counts', lambda: (ps, e.relation_edges))
            S.same_map(got, pairs[e.endpoints], 'relation-counts', lambda: (ps, got))


def two(S):
    voc = Vocab(S, 2, 2, 2)
    pool = all_specs(voc, 2, empty=True, directed=True)
    n = 1 + S.choose('n', S.deep(3, 4))
    ps = outcomes(S, voc, pool, n)
    g = graph(voc, ps)
    f = g.folded_graph(name='f')
    S.check(f.name == 'f', 'name-kept')
    check(S, voc, f, ps)


def three(S):
    voc = Vocab(S, 3, 2, 1)
    sh = [((0,), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),)), ((0, 1, 2), ((0, 1), (1, 2))),
          ((0, 1, 2), ((0, 1), (0, 2), (1, 2)))]
    ps = outcomes(S, voc, all_specs(voc, 3, shapes=sh), S.deep(2, 3))
    f = graph(voc, ps).folded_graph()
    check(S, voc, f, ps)
    import re
    S.check(f.name and [int(x) for x in re.findall('[0-9]+', f.name)] == [len(f.nodes), len(f.edges)], 'default-name-tells-the-sizes',
            lambda: f.name)


def conditional(S):
    """folding a conditioned graph folds the selected outcomes"""
    voc = Vocab(S, 2, 2, 1)
    pool = all_specs(voc, 2, empty=True)
    ps = outcomes(S, voc, pool, S.deep(2, 3))
    e = pool[S.choose('e', len(pool))]
    sel = [(s, c) for s, c in ps if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    S.assume(sel)
    check(S, voc, graph(voc, ps).conditional_graph(voc.build(e)).folded_graph(), sel)


def reserved_label(S):
    """a value which is called like the label of the unobserved share"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    b = RelationGraphBuilder({'a': {'unobserved', 'k'}, 'b': {'k'}}, {'r'})
    n, m = S.int('n', 1), S.int('m', 1)
    b.add_outcome(b.sample_builder().build_single_node('a', 'unobserved'), n)
    b.add_outcome(b.sample_builder().build_single_node('b', 'k'), m)
    md = b.build().folded_graph().folded_node('a').marginal_distribution()
    acc = 0
    for x in md:
        acc = acc + md[x]
    S.eq(acc, 1, 'value-named-like-the-label', lambda: md)


def large(S):
    """a dozen outcomes over 7 variables"""
    voc = big.vocab(S)
    ps = big.many(S, voc, S.pick('k', [6, None]))
    check(S, voc, graph(voc, ps).folded_graph(), ps)


def many_relations(S):
    """one pair of variables linked in every way there is"""
    voc = big.vocab(S)
    v, x, r = voc.vars, voc.vals, voc.rels
    kinds = list(r) + [voc.directed(v[0], v[1], q) for q in r] + [voc.directed(v[1], v[0], q) for q in r]
    turn = S.choose('turn', 4)
    ps = [(Spec({v[0]: x[i // 4 % 4], v[1]: x[(i + turn) % 4]}, {frozenset({v[0], v[1]}): k}), S.int(f'n{i}', 1))
          for i, k in enumerate(kinds + kinds[:3])]
    check(S, voc, graph(voc, ps).folded_graph(), ps)


SCENARIOS = {'two': two, 'three': three, 'conditional': conditional, 'reserved_label': reserved_label}
numbers(SCENARIOS, 'two', 'three')
SCENARIOS['large'] = large
SCENARIOS['many_relations'] = many_relations


def many_values(S):
    """a variable of 12 values, most of them observed, counts equal or not"""
    voc = Vocab(S, 2, 12, 1)
    x, k = voc.vals, S.pick('k', [6, 11, 12])
    even = S.flag('even')
    c = [S.int('n', 1)] * 12 if even else [S.int(f'n{i}', 1) for i in range(12)]
    ps = [(Spec({voc.vars[0]: x[i]}, {}), c[i]) for i in range(k)] + \
        [(Spec({voc.vars[0]: x[i], voc.vars[1]: x[-1 - i]}, {frozenset(voc.vars): voc.rels[0]}), c[i]) for i in range(4)] + \
        [(Spec({voc.vars[1]: x[0]}, {}), S.int('m', 1))]
    check(S, voc, graph(voc, ps).folded_graph(), ps)


SCENARIOS['many_values'] = many_values
