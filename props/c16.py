"""C16 grouping of intersecting samples is the partition by shared links"""
from props.common import numbers, Vocab, Spec, items_of, connected_shapes, iso_shapes
from props.spaces import all_specs, outcomes, total
from props import large as big

BOUNDS = {'quick': '2-3 samples over 3 variables (all shapes, two values) in any order; 3 samples over 4 variables; chains '
                   'of 4 and 5 samples that intersect only through each other, in any order; unbounded positive counts'
                   '; 14 outcomes over 7 variables',
          'thorough': '4 samples over 3 variables, 4 over 4 variables'}
OUTSIDE = 'other larger sets'


def pairs_of(s):
    return set(s.edges)


def partition(ps):
    """connected components of: both single nodes on the same variable, or a linked pair of variables in common"""
    comps = []
    for i, (s, c) in enumerate(ps):
        if s.edges:
            key = set(s.edges)
        else:
            key = {frozenset(s.nodes)}
        hit = [g for g in comps if g[0] & key]
        new = (key.union(*[g[0] for g in hit]) if hit else key, [i for g in hit for i in g[1]] + [i])
        comps = [g for g in comps if not (g[0] & key)] + [new]
    return comps


def check(S, voc, ps, order):
    from scripts.relnet.sample_set import SampleSet
    ss = SampleSet(voc.provider, {voc.build(s): c for s, c in order})
    comps = partition(ps)
    var_sets = [frozenset(v for k in key for v in k) for key, _ in comps]
    r = S.attempt(ss.group_intersecting)
    if len(set(var_sets)) != len(var_sets):
        S.check(S.refused(r), 'groups-over-the-same-variables-refused', lambda: (ps, r))
        return
    S.check(not S.refused(r), 'grouping-succeeds', lambda: (ps, r))
    if S.refused(r):
        return
    S.check(set(r) == set(var_sets) and len(r) == len(comps), 'a-group-per-component', lambda: (ps, r))
    for (key, ids), vs in zip(comps, var_sets):
        if vs in r:
            S.same_map(items_of(r[vs]), {ps[i][0].elements(): ps[i][1] for i in ids}, 'group-members-with-counts',
                       lambda: (ps, r))
    acc = 0
    for g in r.values():
        acc = acc + g.length
    S.eq(acc, total(ps), 'nothing-lost-nothing-doubled')


def three(S):
    voc = Vocab(S, 3, 2, 1)
    pool = all_specs(voc, 3, values=1, empty=True) + [Spec({voc.vars[0]: voc.vals[1]}, {}), Spec(
        {voc.vars[0]: voc.vals[1], voc.vars[1]: voc.vals[0]}, {frozenset(voc.vars[:2]): voc.rels[0]})]
    ps = outcomes(S, voc, pool, 1 + S.choose('n', S.deep(3, 4)))
    order = list(reversed(ps)) if S.flag('reversed') else ps
    check(S, voc, ps, order)


def four(S):
    voc = Vocab(S, 4, 1, 1)
    sh = [s for s in connected_shapes(4, max_edges=3) if len(s[1]) in (1, 3) or s[0] == (0,)]
    pool = all_specs(voc, 4, shapes=sh)
    ps = outcomes(S, voc, pool, S.deep(3, 4))
    check(S, voc, ps, ps)


def chains(S):
    """samples that hang together only through each other, in any order"""
    voc = Vocab(S, 6, 1, 1)
    x, r = voc.vals[0], voc.rels[0]

    def path(*ix):
        return Spec({voc.vars[i]: x for i in ix},
                    {frozenset({voc.vars[a], voc.vars[b]}): r for a, b in zip(ix, ix[1:])})
    full = [path(0, 1), path(0, 1, 2), path(1, 2, 3), path(2, 3, 4), path(4, 5)] + [path(4)]
    specs = full[:S.deep(5, 6)]
    ps = [(s, S.int(f'n{i}', 1)) for i, s in enumerate(specs)]
    check(S, voc, ps, S.perm('order', ps))


def bridge(S):
    """a late sample connects two groups made before"""
    voc = Vocab(S, 5, 2, 2)
    r = voc.rels

    def path(val, rel, *ix):
        return Spec({voc.vars[i]: voc.vals[val] for i in ix},
                    {frozenset({voc.vars[a], voc.vars[b]}): r[rel] for a, b in zip(ix, ix[1:])})
    ps = [(path(0, 0, 0, 1), S.int('n0', 1)), (path(1, 1, 0, 1), S.int('n1', 1)), (path(0, 0, 2, 3), S.int('n2', 1)),
          (path(1, 0, 0, 1, 4), S.int('n3', 1))]
    if S.flag('bridged'):
        ps.append((path(0, 1, 0, 1, 2, 3), S.int('n4', 1)))
    if S.flag('single'):
        ps.append((Spec({voc.vars[0]: voc.vals[0]}, {}), S.int('n5', 1)))
    check(S, voc, ps, S.perm('order', ps) if len(ps) < 6 else ps)


def names(S):
    """single nodes: the group is the variable, whatever its name looks like"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    a, b = S.pick('names', [('ab', 'ba'), ('aab', 'ab'), (1, 2), ('', 'a'), (('p', 'q'), ('q', 'p')), ('a', 'b')])
    bld = RelationGraphBuilder({a: {'1', '2'}, b: {'1', '2'}}, {'r'})
    n = [S.int(f'n{i}', 1) for i in range(3)]
    s = [bld.sample_builder().build_single_node(*k) for k in ((a, '1'), (a, '2'), (b, '1'))]
    for x, c in zip(s, n):
        bld.add_outcome(x, c)
    r = bld.build().outcomes.group_intersecting()
    S.check(set(r) == {frozenset({a}), frozenset({b})}, 'single-nodes-grouped-by-variable', lambda: r)
    S.same_map(dict(r[frozenset({a})].items()), {s[0]: n[0], s[1]: n[1]}, 'group-members-with-counts', lambda: r)
    S.same_map(dict(r[frozenset({b})].items()), {s[2]: n[2]}, 'group-members-with-counts', lambda: r)


def large(S):
    """8 to 14 samples over 7 variables in one or several groups"""
    voc = big.vocab(S)
    ps = big.many(S, voc)[:-2]
    extra = [big.path(voc, (3, 4), 1), big.path(voc, (5, 6)), big.path(voc, (6,)), big.path(voc, (2, 3, 4))]
    ps += [(s, S.int(f'x{i}', 1)) for i, s in enumerate(extra) if S.flag(f'has{i}')]
    k = S.choose('order', 3)
    check(S, voc, ps, [ps, ps[::-1], ps[::2] + ps[1::2]][k])


def barely(S):
    """samples with many links which have only one linked pair in common"""
    voc = big.vocab(S)
    sh = big.shapes(voc)
    star = big.spec(voc, {i: 2 for i in (0, 1, 2, 3, 5)}, {(3, i): 0 for i in (0, 1, 2, 5)} | {(0, 5): 1, (1, 5): 2})
    ps = [(sh[S.pick('a', [0, 1, 5])], S.int('na', 1)), (star, S.int('nb', 1))]
    if S.flag('more'):
        ps.append((big.path(voc, S.pick('c', [(2, 3), (0, 3), (1, 4), (4,)])), S.int('nc', 1)))
    check(S, voc, ps, ps[::-1] if S.flag('reversed') else ps)


SCENARIOS = {'three': three, 'four': four, 'chains': chains, 'bridge': bridge, 'names': names}
numbers(SCENARIOS, 'three', 'bridge')
SCENARIOS['large'] = large
SCENARIOS['barely'] = barely
