"""C24 questions about the outcomes of a graph are answered from exactly its outcomes"""
from props.common import numbers, Vocab, Spec, same_set, items_of
from props.spaces import all_specs, outcomes, graph, total
from props import large as big

BOUNDS = {'quick': '1-3 outcomes out of all over 2 variables (2 relations, an arrow, the empty sample), 2 over 3 variables; '
                   'any asked set of up to 3 values; unbounded positive counts; equal names; 14 outcomes over 7 variables with up to 7 asked values', 'thorough': 'up to 4 outcomes'}
OUTSIDE = 'vocabulary names whose texts coincide'


def questions(S, voc, ps, g):
    want = {v: frozenset(s.nodes[v] for s, _ in ps if v in s.nodes) for v in voc.vars}
    S.check(g.included_variables() == frozenset((v, xs) for v, xs in want.items() if xs), 'included-variables',
            lambda: (ps, g.included_variables()))
    rels = []
    for s, _ in ps:
        for r in s.edges.values():
            if all(not (r == q) for q in rels):
                rels.append(r)
    got = g.included_relations()
    S.check(got == frozenset(rels), 'included-relations', lambda: (ps, got))
    ev = g.outcomes_as_edges_sets()
    views = {}
    for s, c in ps:
        views[voc.edge_tuples(s) if s.edges else (list(s.nodes.items())[0] if s.nodes else None)] = c
    S.check(len(ev) == len(ps), 'outcomes-as-edges', lambda: (ps, ev))
    S.same_map(dict(ev), views, 'outcomes-as-edges', lambda: (ps, ev))


def find(S, voc, ps, g):
    asked = set()
    for i in range(S.choose('k', 3)):
        asked.add((voc.vars[S.choose(f'v{i}', len(voc.vars))], voc.vals[S.choose(f'x{i}', len(voc.vals))]))
    r = g.find_for_values(set(asked))
    same_set(S, r, [(s, c) for s, c in ps if asked <= s.node_set()], 'found-iff-all-values-contained')


def two(S):
    voc = Vocab(S, 2, 2, 2)
    ps = outcomes(S, voc, all_specs(voc, 2, empty=True, directed=True), 1 + S.choose('n', S.deep(3, 4)))
    questions(S, voc, ps, graph(voc, ps))


def two_find(S):
    voc = Vocab(S, 2, 2, 1)
    ps = outcomes(S, voc, all_specs(voc, 2, empty=True), 1 + S.choose('n', S.deep(3, 4)))
    find(S, voc, ps, graph(voc, ps))


def three(S):
    voc = Vocab(S, 3, 2, 1)
    sh = [((0,), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),)), ((0, 1, 2), ((0, 1), (1, 2)))]
    ps = outcomes(S, voc, all_specs(voc, 3, shapes=sh), 2)
    g = graph(voc, ps)
    questions(S, voc, ps, g)
    find(S, voc, ps, g)


def described(S):
    """descriptions count and name what is there"""
    S.text_tokens()
    voc = Vocab(S, 2, 2, 2)
    ps = outcomes(S, voc, all_specs(voc, 2, rels=2), 2)
    more = [(s, S.int(f'more{i}', 1)) for i, s in enumerate(s for s in all_specs(voc, 2, rels=2) if s not in [p for p, _ in ps])]
    ps += more[:S.pick('more', [0, 3])]
    g = graph(voc, ps, name='the graph')
    d = g.describe()
    S.check(d['name'] == 'the graph' and d['number_of_variables'] == 2 and d['number_of_relations'] == 2, 'describe-graph',
            lambda: d)
    S.eq(d['number_of_outcomes'], total(ps), 'describe-graph-total')
    S.check(d['variables'] == {str(v) for v in voc.vars} and d['relations'] == {str(r) for r in voc.rels}, 'describe-graph',
            lambda: d)
    e = ps[S.choose('e', 2)][0]
    cg = g.conditional_graph(voc.build(e))
    sel = [(s, c) for s, c in ps if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    d = cg.describe()
    S.check(d['query'] == voc.build(e).text_view(), 'describe-conditional', lambda: d)
    S.eq(d['number_outcomes'], total(sel), 'describe-conditional-total')
    S.check(d['included_variables'] == {str(v) for s, _ in sel for v in s.nodes}
            and d['included_relations'] == {str(r) for s, _ in sel for r in s.edges.values()}, 'describe-conditional',
            lambda: d)


def printed(S):
    """one line per outcome, with its count, sorted"""
    voc = Vocab(S, 2, 2, 1)
    S.text_tokens()
    n = [S.pick(f'n{i}', [1, 10, 3]) for i in range(3)]
    pool = all_specs(voc, 2)
    ix = [S.choose('i0', 3), 3 + S.choose('i1', 3), 6 + S.choose('i2', 2)]
    ps = [(pool[i], c) for i, c in zip(ix, n)][:1 + S.choose('k', 3)]
    import os
    got = graph(voc, ps).print_samples()
    want = os.linesep.join(sorted(voc.build(s).text_view() + f'({c})' for s, c in ps))
    S.check(got == want, 'a-line-per-outcome', lambda: (got, want))


def same_names(S):
    """different outcomes under the same name are all there"""
    import os
    voc = Vocab(S, 2, 2, 1)
    S.text_tokens()
    pool = all_specs(voc, 2)
    ix = [S.choose('i0', 3), 3 + S.choose('i1', 3), 6]
    n = [S.pick(f'n{i}', [1, 2]) for i in range(3)]
    names = [S.pick(f'm{i}', ['same', 'other']) for i in range(3)]
    from scripts.relnet.relation_graph import RelationGraphBuilder
    b = RelationGraphBuilder(components_provider=voc.provider, name='g')
    ps = [(pool[i], c) for i, c in zip(ix, n)]
    for (s, c), m in zip(ps, names):
        b.add_outcome(voc.build(s, name=m), c)
    g = b.build()
    got = g.print_samples()
    want = os.linesep.join(sorted(f'{m}({c})' for m, c in zip(names, n)))
    S.check(got == want, 'a-line-per-outcome', lambda: (got, want))
    questions(S, voc, ps, g)
    v, x = voc.vars[0], voc.vals[0]
    same_set(S, g.find_for_values({(v, x)}), [(s, c) for s, c in ps if (v, x) in s.node_set()], 'found-iff-all-values-contained')


def large_find(S):
    """many values asked at once: part of what an outcome has, all of it, or one wrong"""
    voc = big.vocab(S)
    ps = big.many(S, voc)
    g = graph(voc, ps)
    s = ps[S.pick('s', [0, 5, 6, 12, 13])][0]
    vs = [v for v in voc.vars if v in s.nodes]
    asked = {v: s.nodes[v] for v in vs[S.choose('from', min(2, len(vs))):][:S.pick('k', [1, 3, 4, 5, 6, 7])]}
    w = S.pick('wrong', [9, 0, 3, 5])
    if w < len(voc.vars):
        v = voc.vars[w]
        asked[v] = voc.vals[(voc.vals.index(asked[v]) + 1) % len(voc.vals)] if v in asked else voc.vals[0]
    r = g.find_for_values(set(asked.items()))
    same_set(S, r, [(t, c) for t, c in ps if set(asked.items()) <= t.node_set()], 'found-iff-all-values-contained')


def large(S):
    """a dozen outcomes over 7 variables"""
    voc = big.vocab(S)
    ps = big.many(S, voc)
    g = graph(voc, ps)
    questions(S, voc, ps, g)
    find(S, voc, ps, g)


SCENARIOS = {'two': two, 'two_find': two_find, 'three': three, 'described': described, 'printed': printed, 'same_names': same_names, 'large_find': large_find}
numbers(SCENARIOS, 'two', 'three', 'described', 'printed')
SCENARIOS['large'] = large
