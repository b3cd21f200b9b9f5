"""C04 joining samples merges exactly their nodes and edges, and conflicts are refused"""
from props.common import numbers, Vocab, Spec, view, connected_shapes
from props import large as big

BOUNDS = {'quick': 'all pairs of samples over 3 variables (2 values, 2 relations, arrows); chains over 4 variables in any order; sets of 2-3 samples over 3-4 variables, unbounded counts'
                   '; fixed samples of up to 7 variables',
          'thorough': 'two relations in sets of three samples, paths in sets, all value choices in the second sample'}
OUTSIDE = 'other larger samples; sets of more than three samples'


def conflict(a, b):
    """(a variable with two values, a link with two relations)"""
    vals = any(v in b.nodes and b.nodes[v] != x for v, x in a.nodes.items())
    be = dict(b.edge_set())
    rels = any(e in be and not (be[e] == r) for e, r in a.edge_set())
    return vals, rels


def union(*specs):
    ns, es = set(), set()
    for s in specs:
        ns |= s.node_set()
        es |= s.edge_set()
    return ns, es


def pair(S, directed=False):
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', canon=True)
    b = voc.spec('b', directed=directed)
    return voc, a, b


def join_two(S):
    voc, a, b = pair(S)
    ga, gb = voc.build(a), voc.build(b)
    vals, rels = conflict(a, b)
    shared = bool(a.node_set() & b.node_set())
    builder = ga.builder()
    S.check(builder.can_sample_be_joined(gb) == (not rels), 'joinable-iff-no-relation-conflict', lambda: (a, b))
    S.check(view(builder.build()) == view(ga), 'asking-changes-nothing')
    ok = shared and not vals and not rels
    r = S.attempt(builder.join_sample, gb)
    S.check(S.refused(r) != ok, 'join-admitted-iff-touching-and-consistent', lambda: (a, b, r))
    if ok:
        got = view(r.build())
        S.check(got == union(a, b), 'join-is-the-union', lambda: (a, b, got))
        back = gb.builder().join_sample(ga).build()
        S.check(view(back) == got, 'join-is-symmetric', lambda: (a, b))
        S.check(r.build() == back and hash(r.build()) == hash(back), 'joined-samples-equal', lambda: (a, b))
    S.check(view(ga) == (a.node_set(), a.edge_set()) and view(gb) == (b.node_set(), b.edge_set()),
            'joining-leaves-the-samples-alone', lambda: (a, b))


def join_directed(S):
    """directed relations: an arrow conflicts with the reverse arrow and with the plain relation"""
    voc = Vocab(S, 3, 1, 2)
    a = voc.spec('a', directed=True, max_nodes=2, min_nodes=2)
    b = voc.spec('b', directed=True, max_edges=2)
    ga, gb = voc.build(a), voc.build(b)
    vals, rels = conflict(a, b)
    builder = ga.builder()
    S.check(builder.can_sample_be_joined(gb) == (not rels), 'joinable-iff-no-relation-conflict', lambda: (a, b))
    r = S.attempt(builder.join_sample, gb)
    ok = bool(a.node_set() & b.node_set()) and not vals and not rels
    S.check(S.refused(r) != ok, 'join-admitted-iff-touching-and-consistent', lambda: (a, b, r))
    if ok:
        S.check(view(r.build()) == union(a, b), 'join-is-the-union', lambda: (a, b))


def join_into_empty(S):
    """joining into a fresh builder gives the sample itself (edges arrive in any order)"""
    S.hash_orders(2)
    voc = Vocab(S, 4, 1, 2)
    a = voc.spec('a', canon=True)
    b = voc.builder().join_sample(voc.build(a))
    S.check(view(b.build()) == (a.node_set(), a.edge_set()), 'join-into-empty-is-the-sample', lambda: a)
    e = voc.builder().build_empty()
    S.check(S.refused(S.attempt(b.join_sample, e)), 'empty-sample-can-not-be-joined')


def join_orders(S):
    """the edges of the joined sample may be met in any order"""
    voc = Vocab(S, 4, 2, 1)
    shapes = [s for s in connected_shapes(4, max_edges=3) if len(s[1]) == 3]
    a = voc.spec('a', shapes=[((0,), ()), ((0, 1), ((0, 1),))], canon=True)
    b = voc.spec('b', shapes=shapes, values=S.deep(1, 2))
    ga, gb = voc.build(a), voc.build(b)
    S.orders(budget=2, max_size=3, where=['join_sample'])
    r = S.attempt(ga.builder().join_sample, gb)
    vals, rels = conflict(a, b)
    ok = bool(a.node_set() & b.node_set()) and not vals and not rels
    S.check(S.refused(r) != ok, 'join-admitted-iff-touching-and-consistent', lambda: (a, b, r))
    if ok:
        S.check(view(r.build()) == union(a, b), 'join-is-the-union', lambda: (a, b))


def foreign_sample(S):
    """a sample of another vocabulary object is never joined"""
    voc = Vocab(S, 2, 1, 1)
    a = voc.spec('a')
    b = voc.spec('b')
    ga = voc.build(a)
    p1 = voc.provider
    voc.new_provider()
    gb = voc.build(b)
    S.check(S.refused(S.attempt(ga.builder().join_sample, gb)), 'foreign-sample-refused')
    S.check(S.refused(S.attempt(ga.builder().can_sample_be_joined, gb)), 'foreign-sample-query-refused')
    S.check(ga.is_compatible(p1) and not ga.is_compatible(voc.provider) and gb.is_compatible(voc.provider),
            'compatibility')


def set_of_samples(S):
    """value match and the joined sample of a set of three samples"""
    from scripts.relnet.sample_set import SampleSet
    voc = Vocab(S, 3, 2, S.deep(1, 2))
    small = connected_shapes(3, max_edges=S.deep(1, 2))
    a = voc.spec('a', shapes=small, canon=True)
    b = voc.spec('b', shapes=connected_shapes(3, max_edges=2))
    c = voc.spec('c', shapes=small)
    S.assume(not (a == b) and not (b == c) and not (a == c))
    counts = [S.int(f'n{i}', 1) for i in range(3)]
    specs = [a, b, c]
    ss = SampleSet(voc.provider, {voc.build(s): n for s, n in zip(specs, counts)})
    pairs = [(a, b), (b, c), (a, c)]
    vals = any(conflict(p, q)[0] for p, q in pairs)
    rels = any(conflict(p, q)[1] for p, q in pairs)
    S.check(ss.is_all_values_match() == (not vals), 'values-match-iff-no-variable-has-two-values', lambda: specs)
    S.check(ss.can_join_samples() == (not vals), 'can-join-iff-no-variable-has-two-values', lambda: specs)
    r = S.attempt(ss.make_joined_sample)
    if vals or rels:
        S.check(S.refused(r), 'conflicting-set-is-not-joined', lambda: (specs, r))
    elif all(p.node_set() & q.node_set() for p, q in pairs):
        S.check(not S.refused(r), 'touching-consistent-set-is-joined', lambda: (specs, r))
    if not S.refused(r):
        g, ns = r
        S.check(view(g) == union(*specs), 'joined-set-is-the-union', lambda: (specs, g))
        S.check(len(ns) == 3, 'joined-set-keeps-the-counts')
        rest = sum(ns)
        S.eq(rest, counts[0] + counts[1] + counts[2], 'joined-set-keeps-the-counts')
        S.eq(ns[0] * ns[1] * ns[2], counts[0] * counts[1] * counts[2], 'joined-set-keeps-the-counts')


def large(S):
    """samples of up to 7 variables: any part joined with any other part, one of which may be changed in one place"""
    voc = big.vocab(S)
    full = S.pick('shape', big.shapes(voc))
    es = voc.ordered_edges(full)
    k = S.pick('cut', [1, len(es) // 2, len(es) - 1])

    def part(pairs):
        return Spec({v: full.nodes[v] for v in full.nodes if any(v in e for e, _ in pairs)}, dict(pairs))
    a = part(es[:k])
    b = big.changed(S, voc, full) if S.flag('changed') else full
    ga, gb = voc.build(a), voc.build(b)
    vals, rels = conflict(a, b)
    ok = bool(a.node_set() & b.node_set()) and not vals and not rels
    S.check(ga.builder().can_sample_be_joined(gb) == (not rels), 'joinable-iff-no-relation-conflict', lambda: (a, b))
    for p, q in ((ga, gb), (gb, ga)):
        r = S.attempt(p.builder().join_sample, q)
        S.check(S.refused(r) != ok, 'join-admitted-iff-touching-and-consistent', lambda: (a, b, r))
        if ok and not S.refused(r):
            S.check(view(r.build()) == union(a, b), 'join-is-the-union', lambda: (a, b))


def large_set(S):
    """a set of 6 samples with counts, consistent or with one conflict"""
    from scripts.relnet.sample_set import SampleSet
    voc = big.vocab(S)
    specs = [big.path(voc, (0, 1)), big.path(voc, (0, 1, 2)), big.path(voc, (1, 2, 3)), big.path(voc, (1,)), big.path(voc, (1, 2)),
             big.path(voc, (0, 1, 2, 3, 4))]
    bad = S.choose('bad', 7)
    if bad < 6:
        specs[bad] = big.path(voc, list(specs[bad].nodes) and [voc.vars.index(v) for v in specs[bad].nodes], 1)
    counts = [S.int(f'n{i}', 1) for i in range(6)]
    ss = SampleSet(voc.provider, {voc.build(s): n for s, n in zip(specs, counts)})
    S.check(ss.is_all_values_match() == (bad == 6) and ss.can_join_samples() == (bad == 6), 'values-match-iff-no-variable-has-two-values',
            lambda: specs)
    r = S.attempt(ss.make_joined_sample)
    S.check(S.refused(r) == (bad < 6), 'touching-consistent-set-is-joined', lambda: (specs, r))
    if not S.refused(r):
        S.check(view(r[0]) == union(*specs) and len(r[1]) == 6, 'joined-set-is-the-union', lambda: (specs, r))
        S.eq(sum(r[1]), sum(counts), 'joined-set-keeps-the-counts')


SCENARIOS = {'join_two': join_two, 'join_directed': join_directed, 'join_into_empty': join_into_empty,
             'join_orders': join_orders, 'foreign_sample': foreign_sample, 'set_of_samples': set_of_samples}
numbers(SCENARIOS, 'join_two', 'join_directed', 'set_of_samples')
SCENARIOS['large'] = large
SCENARIOS['large_set'] = large_set


def apart(S):
    """a set of up to 7 samples, two of which alone know a variable"""
    from scripts.relnet.sample_set import SampleSet
    voc = big.vocab(S)
    specs = [big.path(voc, (0, 1)), big.path(voc, (1, 2)), big.path(voc, (2,)), big.path(voc, (0,)), big.path(voc, (1,))][:1 + 4 * S.flag('more')]
    a = S.pick('a', [big.path(voc, (6,)), big.path(voc, (5, 6))])
    b = S.pick('b', [big.path(voc, (6,), 1), big.path(voc, (6,)), big.path(voc, (6, 4), 1), big.path(voc, (6, 4))])
    S.assume(not (a == b))
    specs = S.perm('order', [specs, [a], [b]])
    specs = [s for part in specs for s in part]
    ok = a.nodes[voc.vars[6]] == b.nodes[voc.vars[6]]
    ss = SampleSet(voc.provider, {voc.build(s): S.int(f'n{i}', 1) for i, s in enumerate(specs)})
    S.check(ss.is_all_values_match() == ok and ss.can_join_samples() == ok, 'values-match-iff-no-variable-has-two-values', lambda: specs)


SCENARIOS['apart'] = apart
