"""C07 neighbours, belt and external nodes of a sample"""
from props.common import numbers, Vocab, connected_shapes, iso_shapes
from props import large as big

BOUNDS = {'quick': 'connected samples (up to renaming of variables) over 3 variables (2 relations, directed links), over '
                   '4 variables (plain relations) and chain, ring and house of 5; every relation filter (none, empty, any subset), every set of centre nodes'
                   '; fixed samples of up to 7 variables',
          'thorough': 'as quick, 4 variables with 2 relations freely chosen, 5 variables with up to 5 links'}
OUTSIDE = 'other larger samples'


def passes(flt, r):
    return not flt or any(r == f for f in flt)


def filters(S, voc, a):
    """None, the empty filter, or any non empty subset of the plain relations and one arrow of the sample"""
    k = S.choose('filter', 3)
    if k < 2:
        return [None, set()][k]
    cand = list(voc.rels)
    for r in a.edges.values():
        if all(not (r == c) for c in cand):
            cand.append(r)
            break
    return set(S.subset('f', cand, 1))


def key(e):
    return frozenset((n.variable, n.value) for n in e.endpoints), e.relation


def nv(n):
    return n.variable, n.value


def ref_edges(a, flt):
    return [(frozenset((v, a.nodes[v]) for v in ends), r) for ends, r in a.edges.items() if passes(flt, r)]


def ref_belt(a, centers, flt):
    out = {}
    for ends, r in ref_edges(a, flt):
        outer = [n for n in ends if n not in centers]
        if len(outer) == 1:
            out.setdefault(outer[0], set()).add((ends, r))
    return out


def ref_external(a, inner, flt):
    out = {}
    inner = set(inner)
    while True:
        layer = ref_belt(a, inner, flt)
        if not layer:
            return out
        out.update(layer)
        inner |= set(layer)


def as_plain(m):
    return {nv(n): {key(e) for e in es} for n, es in m.items()}


def around(S, voc, a):
    from scripts.relnet.graph_components import ValueNode
    g = voc.build(a)
    flt = filters(S, voc, a)
    give = None if flt is None else set(flt)
    # centres: any subset of the nodes, and possibly a node which is not in the sample
    inner = [(v, a.nodes[v]) for v in S.subset('inner', list(a.nodes))]
    if S.flag('stranger'):
        inner.append((voc.vars[0], voc.vals[1]))
    nodes = {ValueNode(*n) for n in inner}
    if not inner:
        S.check(S.refused(S.attempt(g.belt_nodes, set(), give)), 'belt-of-nothing-refused')
        return
    got = g.belt_nodes(nodes, give)
    want = ref_belt(a, inner, flt)
    S.check(as_plain(got) == want and len(got) == len(want), 'belt-of-nodes', lambda: (a, inner, flt, got, want))
    got = g.external_nodes(nodes, give)
    want = ref_external(a, inner, flt)
    S.check(as_plain(got) == want and len(got) == len(want), 'external-nodes', lambda: (a, inner, flt, got, want))
    S.check({nv(n) for n in nodes} == set(inner), 'given-nodes-not-changed')
    S.check(give is None or give == flt, 'given-filter-not-changed')
    if not flt and set(inner) <= set(a.node_set()):
        S.check(set(as_plain(got)) == a.node_set() - set(inner), 'all-other-nodes-are-external', lambda: (a, inner))


def neighbours(S):
    from scripts.relnet.graph_components import ValueNode
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', directed=True, values=S.deep(1, 2), shapes=S.deep(iso_shapes(3), None))
    g = voc.build(a)
    flt = filters(S, voc, a)
    give = None if flt is None else set(flt)
    center = S.pick('center', list(a.nodes))
    at = (center, a.nodes[center])
    if S.flag('stranger'):
        at = (center, voc.vals[1] if at[1] == voc.vals[0] else voc.vals[0])
    got = g.neighboring_values(ValueNode(*at), give)
    want = {}
    for ends, r in ref_edges(a, flt):
        if at in ends:
            (other,) = [n for n in ends if n != at]
            want[other] = (ends, r)
    S.check({nv(n): key(e) for n, e in got.items()} == want and len(got) == len(want), 'neighbours-of-a-node',
            lambda: (a, at, flt, got))
    S.check(give is None or give == flt, 'given-filter-not-changed')


def small(S):
    voc = Vocab(S, 3, 2, 2)
    around(S, voc, voc.spec('a', directed=True, values=1, shapes=S.deep(iso_shapes(3), None)))


def four(S):
    voc = Vocab(S, 4, 2, 2)
    if S.tier == 'quick':
        a = voc.spec('a', canon=True, shapes=iso_shapes(4, 4))
    else:
        a = voc.spec('a', values=1, min_nodes=4)
    around(S, voc, a)


def five(S):
    """chains and trees of five variables: more than two layers"""
    voc = Vocab(S, 5, 2, 2)
    chain = ((0, 1, 2, 3, 4), ((0, 1), (1, 2), (2, 3), (3, 4)))
    ring = ((0, 1, 2, 3, 4), ((0, 1), (1, 2), (2, 3), (3, 4), (0, 4)))
    house = ((0, 1, 2, 3, 4), ((0, 1), (1, 2), (2, 3), (0, 3), (3, 4)))
    shapes = [chain, ring, house] if S.tier == 'quick' else connected_shapes(5, min_nodes=5, max_edges=4) + [ring, house]
    a = voc.spec('a', shapes=shapes, canon=True, rels=S.deep(1, 2))
    around(S, voc, a)


def large(S):
    """samples of 5 to 7 variables: any one or two centres, any filter"""
    from scripts.relnet.graph_components import ValueNode
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    g = voc.build(a)
    flt = [None, {voc.rels[0]}, {voc.rels[1], voc.rels[2]}, {r for r in a.edges.values() if not any(r == q for q in voc.rels)} or None][
        S.choose('filter', 4)]
    ns = list(a.nodes.items())
    i = S.choose('i', len(ns))
    j = S.choose('j', len(ns))
    S.assume(i <= j)
    inner = {ns[i], ns[j]}
    at = ns[i]
    got = g.neighboring_values(ValueNode(*at), flt)
    want = {[n for n in ends if n != at][0]: (ends, r) for ends, r in ref_edges(a, flt) if at in ends}
    S.check({nv(n): key(e) for n, e in got.items()} == want and len(got) == len(want), 'neighbours-of-a-node', lambda: (a, at, flt, got))
    nodes = {ValueNode(*n) for n in inner}
    S.check(as_plain(g.belt_nodes(nodes, flt)) == ref_belt(a, inner, flt), 'belt-of-nodes', lambda: (a, inner, flt))
    S.check(as_plain(g.external_nodes(nodes, flt)) == ref_external(a, inner, flt), 'external-nodes', lambda: (a, inner, flt))


SCENARIOS = {'neighbours': neighbours, 'small': small, 'four': four, 'five': five}
numbers(SCENARIOS, 'neighbours', 'five')
SCENARIOS['large'] = large
