"""C10 built objects never change: building on, deriving from, querying or copying them leaves them as they were"""
import copy

from props.common import numbers, Vocab, Spec, view, items_of, iso_shapes
from props.common import is_spec
from props.c09 import pool
from props import large as big

BOUNDS = {'quick': 'samples over 3 variables; sets and graphs of up to 3 outcomes with unbounded positive counts; '
                   'histories of up to 2 steps or queries after the snapshot; 14 outcomes over 7 variables',
          'thorough': 'all connected samples over 3 variables with 2 relations; histories of 3'}
OUTSIDE = 'mutation of private attributes by the caller; mutation of the vocabulary dict handed to a builder'


def snap(g):
    return view(g), g.name, hash(g), g.included_variables, g.is_single_node, g.is_k_0


def link(voc, i):
    """a link which can be added to a sample holding variable 0 (i: which)"""
    return [({(voc.vars[0], voc.vals[0]), (voc.vars[3], voc.vals[0])}, voc.rels[0]),
            ({(voc.vars[0], voc.vals[0]), (voc.vars[3], voc.vals[1])}, voc.rels[1])][i]


def sample_builders(S):
    voc = Vocab(S, 4, 2, 2)
    a = voc.spec('a', shapes=S.deep(iso_shapes(3), None), values=1, nv=3)
    S.assume(voc.vars[0] in a.nodes)
    b = voc.builder()
    if a.edges:
        for ends, r in voc.ordered_edges(a):
            b.add_relation({(v, a.nodes[v]) for v in ends}, r)
        g = b.build()
    else:
        g = b.build_single_node(voc.vars[0], voc.vals[0])
        b = g.builder()
    before = snap(g)
    how = S.choose('how', 4)
    other = [b, g.builder(), copy.copy(g.builder()), copy.copy(b)][how]
    state = view(b.build())
    k = S.choose('step', 4)
    if k < 2:
        other.add_relation(*link(voc, k))
    elif k == 2:
        e, r = link(voc, 0)
        other.join_sample(voc.builder().add_relation(e, r).build())
    else:
        other.set_name('renamed')
        other.add_relation(*link(voc, 0))
    made = other.build()
    S.check(snap(g) == before, 'built-sample-not-changed-by-its-builder', lambda: (a, how, k, g))
    S.check(len(made.edges) == len(g.edges) + 1, 'builder-went-on', lambda: (a, how, k, made))
    if how > 0:
        S.check(view(b.build()) == state, 'builders-are-independent', lambda: (a, how, k))
    S.check(S.refused(S.attempt(copy.copy, g)), 'sample-copy-refused')


def copied_builder(S):
    """a copied sample builder and its original grow apart, both ways"""
    voc = Vocab(S, 4, 2, 2)
    b = voc.builder().add_relation({(voc.vars[0], voc.vals[0]), (voc.vars[1], voc.vals[0])}, voc.rels[0])
    c = copy.copy(b)
    x, y = (b, c) if S.flag('swap') else (c, b)
    before = view(y.build())
    x.add_relation(*link(voc, S.choose('l', 2)))
    S.check(view(y.build()) == before, 'copied-builder-independent')
    r = S.attempt(y.add_relation, *link(voc, S.choose('m', 2)))
    S.check(not S.refused(r), 'copied-builder-has-its-own-links', lambda: r)
    S.check(len(x.build().edges) == 2 and len(y.build().edges) == 2, 'copied-builder-independent')


def sample_queries(S):
    """query results are the caller's own, and queries do not change the sample"""
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', shapes=iso_shapes(3), directed=True, values=1)
    g = voc.build(a)
    before = snap(g)
    center = next(iter(g.nodes))
    for i in range(2):
        v = g.values()
        S.check(v == a.node_set(), 'values-again')
        v.clear()
        n = g.neighboring_values(center)
        want = {m: e for e in g.edges if center in e.endpoints for m in e.endpoints if m != center}
        S.check(n == want, 'neighbours-again')
        n.clear()
        for f in (g.belt_nodes, g.external_nodes):
            r = f({center})
            S.check({m: es for m, es in f({center}).items()} == r, 'belt-again')
            for es in r.values():
                es.clear()
            r.clear()
            S.check(set(f({center})) == (set(want) if f == g.belt_nodes else set(g.nodes) - {center}), 'belt-again')
    S.check(snap(g) == before, 'sample-not-changed-by-queries')


def set_steps(S, voc, ps, b, tag, n):
    for i in range(n):
        k = S.choose(f'{tag}op{i}', len(ps) + 2)
        if k < len(ps):
            b.add(voc.build(ps[k]), S.int(f'{tag}n{i}', 1))
        elif k == len(ps):
            S.attempt(b.remove, voc.build(ps[0]))
        else:
            b.add_all(b.build())


def sample_sets(S):
    from scripts.relnet.sample_set import SampleSet, SampleSetBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 3)
    given = {voc.build(ps[0]): S.int('n0', 1), voc.build(ps[1]): S.int('n1', 1)}
    want = {s: c for s, c in given.items()}
    how = S.choose('how', 5)
    if how == 0:       # the dict a set was made from
        ss = SampleSet(voc.provider, given)
        given[voc.build(ps[2])] = S.int('n2', 1)
        given[voc.build(ps[0])] = S.int('n3', 1)
    elif how == 1:     # the dict a builder was made from
        b = SampleSetBuilder(voc.provider, given)
        set_steps(S, voc, ps, b, 'd', 1)
        S.check(given.keys() == want.keys(), 'given-dict-not-changed')
        S.same_map(given, want, 'given-dict-not-changed')
        ss = SampleSet(voc.provider, given)
    else:
        b = SampleSetBuilder(voc.provider, given)
        ss = b.build()
        if how == 2:
            set_steps(S, voc, ps, b, 'b', S.deep(2, 3))
        elif how == 3:
            set_steps(S, voc, ps, ss.builder(), 'b', S.deep(2, 3))
        else:
            c = b.copy()
            set_steps(S, voc, ps, c, 'b', S.deep(2, 3))
            S.same_map(dict(b.build().items()), want, 'copied-builder-independent')
    h = hash(ss)
    ss.items().clear()
    ss.samples().clear()
    u = ss.union(ss)
    f = ss.filter_samples(lambda s: False)
    ss.probabilities()
    ss.group_intersecting()
    S.same_map(dict(ss.items()), want, 'built-set-not-changed')
    S.eq(ss.length, sum_(want.values()), 'built-set-not-changed')
    S.check(hash(ss) == h, 'built-set-not-changed')
    S.check(ss.samples() == set(want), 'built-set-not-changed')


def sum_(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def graphs(S):
    """a relation graph stays what it was, whatever is derived from it or added to the builder it came from"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 3, 2, 2)
    v, x, r = voc.vars, voc.vals, voc.rels
    b = RelationGraphBuilder({k: set(x) for k in v}, set(r), name='g')
    ab = b.sample_builder().add_relation({(v[0], x[0]), (v[1], x[0])}, r[0]).build()
    cd = b.sample_builder().add_relation({(v[1], x[0]), (v[2], x[0])}, r[0]).build()
    ab2 = b.sample_builder().add_relation({(v[0], x[1]), (v[1], x[0])}, r[1]).build()
    n, m = S.int('n', 1), S.int('m', 1)
    b.add_outcome(ab, n).add_outcome(cd, m)
    g = b.build()
    want = {ab: n, cd: m}
    q = None
    for i in range(S.deep(2, 2)):
        k = S.choose(f'q{i}', 12)
        if k == 0:
            b.add_outcome([ab, ab2][S.choose(f'w{i}', 2)], S.int(f'c{i}', 1)).set_name('later')
        elif k == 1:
            h = g.builder().add_outcome([ab, ab2][S.choose(f'w{i}', 2)], S.int(f'c{i}', 1)).set_name('later').build()
            S.eq(h.outcomes.length, n + m + S_last(h, want), 'builder-goes-on')
        elif k == 2:
            q = g.conditional_graph([ab, cd][S.choose(f'w{i}', 2)])
            q.builder().add_outcome(ab2, 3)
            q.relation_graph('z').builder().add_outcome(ab2, 3)
        elif k == 3:
            u = S.flag(f'w{i}')
            p = g.marginal_variables_probability(unobserved=u)
            copy_ = {k_: dict(d) for k_, d in p.items()}
            for d in p.values():
                d.clear()
            p.clear()
            p = g.marginal_variables_probability(unobserved=u)
            S.check(p.keys() == copy_.keys() and all(p[k_].keys() == d.keys() for k_, d in copy_.items()), 'marginals-again', lambda: (p, copy_))
            for k_, d in copy_.items():
                S.same_map(p[k_], d, 'marginals-again')
        elif k == 4:
            f = g.folded_graph()
            t = [repr(fn) for fn in f.nodes]
            for fn in f.nodes:
                fn.marginal_distribution().clear()
            S.check(f == g.folded_graph() and sorted(t) == sorted(repr(fn) for fn in f.nodes), 'folded-graph-again')
        elif k == 5:
            S.attempt(g.factorized)
            g.is_factorized()
            g.is_joined()
        elif k == 6:
            S.attempt(g.make_joined, 'j')
        elif k == 7:
            S.attempt(g.joined_on_variables, {v[1]}, 'j')
        elif k == 8:
            g.find_for_values({(v[0], x[0])})
            g.outcomes_as_edges_sets()
            g.print_samples()
            nv = len(g.describe()['variables'])
            g.describe()['variables'].clear()
            g.describe().clear()
            S.check(len(g.describe()['variables']) == nv, 'described-again')
        elif k == 9:
            g.relation_graph('other').builder().add_outcome(ab2, 7).build()
        elif k == 10:
            g.conditional_graph(ab).activation_graph()
        else:
            g.visualize_outcomes('f')
            g.included_variables()
            g.included_relations()
        S.check(g.outcomes.samples() == set(want), 'graph-not-changed', lambda: k)
        S.same_map(dict(g.outcomes.items()), want, 'graph-not-changed', lambda: k)
        S.eq(g.outcomes.length, n + m, 'graph-not-changed', lambda: k)
        S.check(g.name == 'g' and repr(g) == 'g', 'graph-name-not-changed', lambda: k)
    S.check(S.refused(S.attempt(copy.copy, g)), 'graph-copy-refused')
    S.check(S.refused(S.attempt(copy.copy, g.folded_graph())), 'folded-graph-copy-refused')


def S_last(h, want):
    """what was added to the set (harness arithmetic on the built graph's own items)"""
    t = 0
    for s, c in h.outcomes.items():
        t = t + c
    for c in want.values():
        t = t - c
    return t


def large(S):
    """samples of up to 7 variables and a graph of a dozen outcomes, after every operation there is"""
    S.number_names = True
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    g = voc.build(a)
    before = snap(g)
    center = {next(iter(g.nodes))}
    for _ in range(2):
        b = g.builder()
        S.attempt(b.join_sample, voc.build(big.path(voc, (0, 1))))
        S.attempt(b.add_relation, {(v, a.nodes.get(v, voc.vals[0])) for v in (voc.vars[0], voc.vars[6])}, voc.rels[2])
        b.set_name('other').build()
        for r in (g.values(), g.neighboring_values(next(iter(center))), g.belt_nodes(center), g.external_nodes(center)):
            r.clear()
        g.transform_with_replaced_values({v: voc.vals[0] for v in voc.vars}, 'x')
        g.similarity(voc.build(big.path(voc, (0, 1))))
        S.check(snap(g) == before and is_spec(g, a), 'sample-not-changed-by-queries', lambda: a)
    ps = big.many(S, voc)
    gb = RelationGraphBuilder(components_provider=voc.provider, name='g')
    for s, c in ps:
        gb.add_outcome(voc.build(s), c)
    rg = gb.build()
    e = voc.build(S.pick('e', [big.path(voc, (0,)), big.path(voc, (0, 1))]))
    gb.add_outcomes([voc.build(s) for s, _ in ps[:5]], 3)
    cg = rg.conditional_graph(e)
    sel = dict(cg.outcomes.items())
    cg.activation_graph()
    rg.folded_graph()
    rg.marginal_variables_probability(unobserved=True)
    for f in (rg.factorized, rg.make_joined, lambda: rg.joined_on_variables({voc.vars[0]}), rg.describe, rg.print_samples,
              lambda: rg.find_for_values({(voc.vars[0], voc.vals[0])}), rg.outcomes.group_intersecting, cg.describe, rg.visualize_outcomes,
              lambda: rg.outcomes.items().clear(), lambda: cg.relation_graph('z').builder().add_outcome(e, 9).build()):
        S.attempt(f)
    rg.builder().add_outcomes([voc.build(s) for s, _ in ps], 2).build()
    S.same_map(items_of(rg.outcomes), {s.elements(): c for s, c in ps}, 'graph-not-changed')
    S.eq(rg.outcomes.length, sum_([c for _, c in ps]), 'graph-not-changed')
    S.same_map(dict(cg.outcomes.items()), sel, 'conditioned-graph-not-changed')


SCENARIOS = {'sample_builders': sample_builders, 'copied_builder': copied_builder, 'sample_queries': sample_queries,
             'sample_sets': sample_sets, 'graphs': graphs}
numbers(SCENARIOS, 'graphs', 'sample_queries')
SCENARIOS['large'] = large
