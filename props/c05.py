"""C05 a sample is its nodes and edges: equality, views and accessors tell exactly them"""
from props.common import numbers, Vocab, Spec, view, is_spec, connected_shapes
from props import large as big

BOUNDS = {'quick': 'all pairs of samples over 3 variables (2 values, 2 relations), all build orders of up to 3 links over 4 variables, 2 hash layouts'
                   '; fixed samples of up to 7 variables',
          'thorough': 'link set view over 4 variables with up to 4 links'}
OUTSIDE = 'other larger samples'


def equality(S):
    """two samples are equal exactly when they have the same nodes and edges, whatever their names and build order"""
    S.hash_orders(2, collide=True)
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', canon=True)
    b = voc.spec('b')
    ga = voc.build(a, name='first')
    gb = voc.build(b, name=S.pick('name', ['first', 'second', None]))
    same = a == b
    S.check((ga == gb) == same, 'equal-iff-same-nodes-and-edges', lambda: (a, b))
    S.check((ga != gb) != same, 'ne-is-negation', lambda: (a, b))
    S.check((gb == ga) == same, 'equality-symmetric', lambda: (a, b))
    S.check(len({ga, gb}) == (1 if same else 2), 'set-size', lambda: (a, b))
    if same:
        S.check(hash(ga) == hash(gb), 'hash-consistent', lambda: (a, b))
        for route in (voc.builder().build_from_edges(voc.edge_tuples(b)) if b.edges else ga, gb.builder().build(),
                      voc.builder().join_sample(gb).build()):
            S.check(route == ga and hash(route) == hash(ga), 'equal-whichever-way-built', lambda: (a, route))
    S.check(not (ga == view(ga)) and not (ga == ga.name) and not (ga == ga.hash), 'never-equals-other-kind')


def build_orders(S):
    """adding the same relations in any order and endpoint order gives an equal sample"""
    voc = Vocab(S, 4, 1, 2)
    a = voc.spec('a', canon=True, min_nodes=3, max_edges=3)
    want = voc.build(a)
    order = S.perm('order', list(a.edges.items()))
    b = voc.builder()
    seen = set()
    for ends, r in order:
        S.assume(not seen or not seen.isdisjoint(ends))
        seen |= ends
        b.add_relation({(v, a.nodes[v]) for v in ends}, r)
    got = b.build()
    S.check(got == want and hash(got) == hash(want), 'build-order-does-not-matter', lambda: (a, order))


def accessors(S):
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', directed=True)
    g = voc.build(a)
    S.check(is_spec(g, a), 'nodes-and-edges-kept', lambda: (a, g))
    S.check(g.included_variables == frozenset(a.nodes), 'included-variables', lambda: (a, g.included_variables))
    S.check(g.values() == a.node_set(), 'values', lambda: (a, g.values()))
    S.check(g.is_single_node == (not a.edges), 'single-node-flag', lambda: a)
    S.check(not g.is_k_0, 'empty-flag', lambda: a)
    S.check(g.edges_endpoint_variables() == frozenset(a.edges), 'endpoint-variables',
            lambda: (a, g.edges_endpoint_variables()))
    for v in voc.vars + [S.atom('other', 'var', distinct=True)]:
        S.check(g.have_variable(v) == (v in a.nodes), 'have-variable', lambda: (a, v))
        got = g.value_for_variable(v)
        S.check((got == a.nodes[v]) if v in a.nodes else (got is None), 'value-for-variable', lambda: (a, v, got))
        for x in voc.vals:
            S.check(g.have_value(v, x) == (v in a.nodes and a.nodes[v] == x), 'have-value', lambda: (a, v, x))
    r = S.attempt(g.single_node_variable)
    if a.edges:
        S.check(S.refused(r), 'single-node-variable-refused', lambda: (a, r))
    else:
        S.check(r == list(a.nodes)[0], 'single-node-variable', lambda: (a, r))


def edges_view(S):
    """the edge view is exactly the edges (or the node, or nothing) and builds an equal sample"""
    voc = Vocab(S, S.deep(3, 4), 2, 2)
    a = voc.spec('a', directed=True, values=2, max_edges=S.deep(3, 4))
    g = voc.build(a)
    ev = g.edges_set_view()
    if a.edges:
        S.check(ev == voc.edge_tuples(a), 'edge-view-is-the-edges', lambda: (a, ev))
        back = voc.builder().build_from_edges(ev)
    else:
        S.check(ev == list(a.nodes.items())[0], 'edge-view-is-the-node', lambda: (a, ev))
        back = voc.builder().build_single_node(*ev)
    S.check(back == g, 'edge-view-builds-an-equal-sample', lambda: (a, ev))
    S.check(view(g.builder().build()) == view(g), 'builder-round-trip', lambda: a)
    S.check(g.builder().build().name == g.name, 'builder-keeps-the-name', lambda: a)
    e = voc.builder().build_empty()
    S.check(e.edges_set_view() is None and e.text_view() == '{}', 'empty-views')


def part_view(S):
    """the part of a sample on given variables: nodes on them and edges with both ends on them"""
    voc = Vocab(S, 4, 1, 1)
    a = voc.spec('a', canon=True)
    g = voc.build(a)
    vs = set(S.subset('on', voc.vars))
    got = g.variables_subgraph_hash(set(vs))
    want = {n for n in g.nodes if n.variable in vs} | \
        {e for e in g.edges if all(n.variable in vs for n in e.endpoints)}
    S.check(got == frozenset(want), 'part-on-variables', lambda: (a, vs, got))


def text(S):
    """text views name every edge (or the node), and equal samples read the same"""
    S.text_tokens()
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a')
    g = voc.build(a)
    if a.edges:
        parts = []
        for ends, r in a.edges.items():
            p, q = sorted('(' + str(v) + '_' + str(a.nodes[v]) + ')' for v in ends)
            parts.append(p + '--{' + str(r) + '}--' + q)
        want = '{' + '; '.join(sorted(parts)) + '}'
    else:
        (v, x), = a.nodes.items()
        want = '{(' + str(v) + '_' + str(x) + ')}'
    S.check(g.text_view() == want, 'text-view-names-the-edges', lambda: (want, g.text_view()))
    S.check(g.name == want and str(g) == want, 'default-name-is-the-text', lambda: (want, g.name))
    given = S.pick('given', ['given', ' ', '{given', want + ' ', '0'])
    n = voc.build(a, name=given)
    S.check(n.name == given and n.text_view() == want, 'given-name-kept', lambda: (n.name, n.text_view()))


def large(S):
    """samples of up to 7 variables which differ in one place at most"""
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    b = big.changed(S, voc, a)
    ga, gb = voc.build(a), voc.build(b)
    same = a == b
    S.check((ga == gb) == same and (gb == ga) == same and (ga != gb) != same, 'equal-iff-same-nodes-and-edges', lambda: (a, b))
    S.check(len({ga, gb}) == (1 if same else 2) and (not same or hash(ga) == hash(gb)), 'set-size', lambda: (a, b))
    S.check(is_spec(gb, b) and gb.included_variables == frozenset(b.nodes) and gb.values() == b.node_set()
            and gb.edges_endpoint_variables() == frozenset(b.edges), 'nodes-and-edges-kept', lambda: (b, gb))
    for v in voc.vars:
        S.check(gb.have_variable(v) == (v in b.nodes) and gb.value_for_variable(v) == b.nodes.get(v), 'value-for-variable', lambda: (b, v))
    S.check(gb.edges_set_view() == voc.edge_tuples(b), 'edge-view-is-the-edges', lambda: b)
    back = voc.builder().build_from_edges(gb.edges_set_view())
    S.check(back == gb and hash(back) == hash(gb) and gb.builder().build() == gb, 'edge-view-builds-an-equal-sample', lambda: b)
    vs = set(voc.vars[::2]) if S.flag('even') else set(voc.vars[:4])
    S.check(gb.variables_subgraph_hash(set(vs)) == frozenset(
        {n for n in gb.nodes if n.variable in vs} | {e for e in gb.edges if all(n.variable in vs for n in e.endpoints)}), 'part-on-variables',
        lambda: (b, vs))


SCENARIOS = {'equality': equality, 'build_orders': build_orders, 'accessors': accessors, 'edges_view': edges_view,
             'part_view': part_view, 'text': text}
numbers(SCENARIOS, 'accessors', 'edges_view', 'part_view', 'text')
SCENARIOS['large'] = large
