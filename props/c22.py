"""C22 what a relation graph builder is told is what the relation graph holds"""
from props.common import numbers, Vocab, Spec, same_set, items_of, merge_counts, view
from props.spaces import total, graph, all_specs
from props.c09 import pool
from props import large as big

BOUNDS = {'quick': 'histories of 3 additions over a pool of 3 samples and foreign samples; counts any integer or (refused) any real below 1, names equal or not; 24 additions of 14 samples',
          'thorough': 'histories of 4 additions'}
OUTSIDE = 'longer histories'


def histories(S):
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 3)
    b = RelationGraphBuilder(components_provider=voc.provider, name='g')
    S.check(S.refused(S.attempt(b.build)), 'no-outcomes-refused')
    model = []
    for i in range(S.deep(3, 4)):
        op = S.choose(f'op{i}', 5)
        if op == 0:
            s = ps[S.choose(f's{i}', 3)]
            n = S.int(f'n{i}')
            r = S.attempt(b.add_outcome, voc.build(s), n)
            ok = n >= 1
            S.check(S.refused(r) != ok, 'count-below-one-refused', lambda: (n, r))
            if ok:
                S.check(r is b, 'gives-the-builder')
                model = merge_counts(model + [(s, n)])
        elif op == 1:
            s = ps[S.choose(f's{i}', 3)]
            S.check(b.add_outcome(voc.build(s)) is b, 'gives-the-builder')
            model = merge_counts(model + [(s, 1)])
        elif op == 2:
            n = S.int(f'n{i}')
            r = S.attempt(b.add_outcomes, [voc.build(ps[0]), voc.build(ps[1]), voc.build(ps[0])], n)
            ok = n >= 1
            S.check(S.refused(r) != ok, 'count-below-one-refused', lambda: (n, r))
            if ok:
                S.check(r is b, 'gives-the-builder')
                model = merge_counts(model + [(ps[0], n), (ps[1], n), (ps[0], n)])
        elif op == 3:
            r = b.build_sample(lambda sb: sb.build_single_node(voc.vars[0], voc.vals[0]))
            S.check(r is b, 'gives-the-builder')
            model = merge_counts(model + [(ps[0], 1)])
        else:
            if not model:
                S.check(S.refused(S.attempt(b.build)), 'no-outcomes-refused')
            else:
                b = b.build().builder()     # on from the built graph
    if not model:
        S.check(S.refused(S.attempt(b.build)), 'no-outcomes-refused')
        return
    g = b.build()
    same_set(S, g.outcomes, model, 'graph-holds-what-was-added')
    S.eq(g.outcomes.length, total(model), 'total')
    S.check(g.name == 'g' and repr(g) == 'g', 'name-kept')
    S.check(g.variables == frozenset((v, frozenset(voc.vals)) for v in voc.vars) and g.relations == frozenset(voc.rels),
            'vocabulary-kept')
    h = g.relation_graph('h')
    same_set(S, h.outcomes, model, 'converted-graph-holds-the-same')
    S.check(h.name == 'h', 'name-kept')
    S.check(g.relation_graph().name == 'g', 'converted-graph-keeps-the-name')


def foreign(S):
    """a sample made with another vocabulary object is refused, even if it looks the same"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 2, 2, 1)
    s = voc.spec('s')
    own = voc.build(s)
    b = RelationGraphBuilder(components_provider=voc.provider)
    voc.new_provider()
    n = S.int('n', 1)
    how = S.choose('how', 3)
    if how == 0:
        r = S.attempt(b.add_outcome, voc.build(s), n)
    elif how == 1:
        r = S.attempt(b.add_outcomes, [voc.build(s)], n)
    else:
        r = S.attempt(b.build_sample, lambda sb: voc.build(s))
    S.check(S.refused(r), 'foreign-outcome-refused', lambda: r)
    S.check(S.refused(S.attempt(b.build)), 'refused-outcome-not-added')
    b.add_outcome(own, n)
    same_set(S, b.build().outcomes, [(s, n)], 'own-outcome-added')


def fractions(S):
    """a count below 1 is refused even if it is above 0, and changes nothing"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 2, 2, 1)
    s, t = Spec({voc.vars[0]: voc.vals[0]}, {}), Spec({voc.vars[0]: voc.vals[1]}, {})
    b = RelationGraphBuilder(components_provider=voc.provider)
    had = S.flag('had')
    if had:
        b.add_outcome(voc.build(s), 2)
    n = S.real('n', hi=1, hi_open=True)
    if S.flag('several'):
        r = S.attempt(b.add_outcomes, [voc.build(s), voc.build(t)], n)
    else:
        r = S.attempt(b.add_outcome, voc.build(s), n)
    S.check(S.refused(r), 'count-below-one-refused', lambda: (n, r))
    if had:
        same_set(S, b.build().outcomes, [(s, 2)], 'refused-outcome-not-added')
    else:
        S.check(S.refused(S.attempt(b.build)), 'refused-outcome-not-added')


def alike(S):
    """outcomes of the same name are different outcomes, equal samples under different names the same one"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 3)
    b = RelationGraphBuilder(components_provider=voc.provider)
    n = [S.int(f'n{i}', 1) for i in range(4)]
    names = [S.pick(f'name{i}', ['same', 'other', None]) for i in range(4)]
    order = [0, 1, 2, S.choose('again', 3)]
    several = S.flag('several')
    if several:
        b.add_outcomes([voc.build(ps[i], name=m) for i, m in zip(order, names)], n[0])
        n = [n[0]] * 4
    else:
        for i, c, m in zip(order, n, names):
            b.add_outcome(voc.build(ps[i], name=m), c)
    model = merge_counts([(ps[i], c) for i, c in zip(order, n)])
    g = b.build()
    same_set(S, g.outcomes, model, 'graph-holds-what-was-added')
    same_set(S, g.relation_graph('h').outcomes, model, 'converted-graph-holds-the-same')
    same_set(S, g.builder().build().outcomes, model, 'builder-goes-on')


def ids_and_names(S):
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = Vocab(S, 2, 2, 1)
    b = RelationGraphBuilder(components_provider=voc.provider)
    ids = [b.next_id() for _ in range(5)]
    S.check(len(set(ids)) == 5 and all(isinstance(i, int) for i in ids), 'ids-are-unique', lambda: ids)
    s = voc.build(Spec({voc.vars[0]: voc.vals[0]}, {}))
    S.check(b.add_outcome(s).set_name('later').build().name == 'later', 'name-set-later')
    S.check(b.sample_builder().build_single_node(voc.vars[0], voc.vals[0]) == s, 'own-sample-builder')
    S.check(S.refused(S.attempt(RelationGraphBuilder)) and S.refused(S.attempt(RelationGraphBuilder, {}, {voc.rels[0]})),
            'builder-needs-a-vocabulary')
    n = S.pick('n', [1, 2, 7])
    g = RelationGraphBuilder(components_provider=voc.provider).add_outcome(s, n).build()
    S.check(g.name == f'relation_graph_with_{n}_outcomes', 'default-name', lambda: g.name)
    S.check(g.conditional_graph(s).name == f'conditional_of_{g.name}', 'default-name-of-conditional')


def large(S):
    """a history of many additions of a dozen samples"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    voc = big.vocab(S)
    ps = big.many(S, voc)
    b = RelationGraphBuilder(components_provider=voc.provider, name='g')
    again = S.choose('again', len(ps))
    model = []
    for i, (s, c) in enumerate(ps):
        b.add_outcome(voc.build(s), c)
        model.append((s, c))
        if i % 3 == 0:
            b.add_outcomes([voc.build(ps[again][0]), voc.build(s)], 2)
            model += [(ps[again][0], 2), (s, 2)]
        if i == again:
            b = b.build().builder()
    model = merge_counts(model)
    g = b.build()
    same_set(S, g.outcomes, model, 'graph-holds-what-was-added')
    S.eq(g.outcomes.length, total(model), 'total')
    same_set(S, g.relation_graph('h').outcomes, model, 'converted-graph-holds-the-same')
    ids = [b.next_id() for _ in range(200)]
    S.check(len(set(ids)) == 200, 'ids-are-unique')


SCENARIOS = {'histories': histories, 'foreign': foreign, 'ids_and_names': ids_and_names, 'fractions': fractions, 'alike': alike}
numbers(SCENARIOS, 'histories')
SCENARIOS['large'] = large
