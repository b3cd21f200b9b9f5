"""C25 variable level nodes, edges and graphs are equal exactly when their contents are"""
import copy

from props.common import Vocab, Spec, connected_shapes
from props.spaces import all_specs, outcomes, graph, total
from props import large as big

BOUNDS = {'quick': 'nodes and edges with symbolic names, up to 2 values or relations each, unbounded symbolic counts and '
                   'weights; graphs of up to 2 nodes; folded and activation graphs of two pairs of outcomes'
                   '; 8 values or relations, graphs of 14 outcomes',
          'thorough': 'three outcomes'}
OUTSIDE = 'other larger graphs'


def eqs(S, a, b, same, label, detail=None):
    S.check((a == b) == same, label + '-equal-iff-same-content', detail)
    S.check((b == a) == same, label + '-equality-symmetric', detail)
    S.check((a != b) != same, label + '-ne-is-negation', detail)
    if same:
        S.check(hash(a) == hash(b), label + '-hash-consistent', detail)
        S.check(len({a, b}) == 1, label + '-set-size', detail)


def other_kinds(S, a, others, label):
    for o in others:
        S.check(not (a == o) and not (o == a) and a != o and o != a, label + '-never-equals-other-kind', lambda: (a, o))


def plain(S):
    from scripts.relnet.variables_graph import VariableNode, VariableEdge
    S.hash_orders(1, collide=True)
    a, b, c, d = (S.atom(n, 'var') for n in 'abcd')
    eqs(S, VariableNode(a), VariableNode(b), a == b, 'node', lambda: (a, b))
    for p, q in ((a, b), (c, d)):
        r = S.attempt(VariableEdge, {p, q})
        S.check(S.refused(r) == (p == q), 'edge-needs-two-endpoints', lambda: (p, q))
    if a != b and c != d:
        e, f = VariableEdge({a, b}), VariableEdge({c, d})
        eqs(S, e, f, {a, b} == {c, d}, 'edge', lambda: (e, f))
        S.check(not (e == VariableNode(a)) and not (VariableNode(a) == e) and not (e == e.endpoints),
                'never-equals-other-kind')
        S.check(S.refused(S.attempt(copy.copy, e)), 'copy-refused')
    S.check(S.refused(S.attempt(VariableEdge, {S.atom('x3', 'v3'), S.atom('y3', 'v3', True), S.atom('z3', 'v3', True)})),
            'edge-needs-two-endpoints')
    S.check(S.refused(S.attempt(copy.copy, VariableNode(a))), 'copy-refused')


def active(S):
    """active nodes and edges: variable or endpoints, all weights or counts, and the evidence mark"""
    from scripts.relnet.activation_graph import ActiveNode, ActiveEdge
    from scripts.relnet.folded_graph import FoldedNode, FoldedEdge
    from scripts.relnet.variables_graph import VariableNode, VariableEdge
    S.hash_orders(1, collide=True)
    va, vb, vc = S.atoms('var', 3)
    xs = S.atoms('val', 2)
    qa, qb = S.flag('qa'), S.flag('qb')
    d1 = {x: S.real(f'w1{i}', 0, 1) for i, x in enumerate(xs[:1 + S.choose('n1', 2)])}
    d2 = {x: S.real(f'w2{i}', 0, 1) for i, x in enumerate(xs[:1 + S.choose('n2', 2)])}
    same_d = len(d1) == len(d2) and all(d1[x] == d2[x] for x in d1)
    if S.flag('edges'):
        e1, e2 = {va, vb}, S.pick('e2', [{va, vb}, {vb, va}, {va, vc}])
        a, b = ActiveEdge(e1, dict(d1), qa), ActiveEdge(e2, dict(d2), qb)
        eqs(S, a, b, e1 == e2 and same_d and qa == qb, 'active-edge', lambda: (a, b))
        S.check(a.endpoints == frozenset(e1) and a.in_query == qa, 'active-edge-content')
        S.same_map(dict(a.relations), d1, 'active-edge-content')
        other_kinds(S, a, [VariableEdge(e1), FoldedEdge(e1, {}), ActiveNode(va, dict(d1), qa), a.endpoints, None, 0], 'active-edge')
        e1.clear()
        S.check(a.endpoints == frozenset({va, vb}), 'active-edge-content-stays')
        S.check(S.refused(S.attempt(copy.copy, a)), 'copy-refused')
    else:
        v2 = S.pick('v2', [va, vb])
        a, b = ActiveNode(va, dict(d1), qa), ActiveNode(v2, dict(d2), qb)
        eqs(S, a, b, va == v2 and same_d and qa == qb, 'active-node', lambda: (a, b))
        S.check(a.variable == va and a.in_query == qa, 'active-node-content')
        S.same_map(dict(a.values), d1, 'active-node-content')
        other_kinds(S, a, [VariableNode(va), FoldedNode(va, set(d1), {}, 1), va, a.values, None, 0], 'active-node')
        S.check(S.refused(S.attempt(copy.copy, a)), 'copy-refused')


def folded(S):
    """folded nodes and edges: variable or endpoints and all counts"""
    from scripts.relnet.folded_graph import FoldedNode, FoldedEdge
    from scripts.relnet.activation_graph import ActiveNode, ActiveEdge
    from scripts.relnet.variables_graph import VariableNode, VariableEdge
    from scripts.relnet.graph_components import ValueNode, RelationEdge
    S.hash_orders(1, collide=True)
    va, vb, vc = S.atoms('var', 3)
    xs = S.atoms('val', 2)
    rs = S.atoms('rel', 2)
    n1, n2 = S.choose('n1', 3), S.choose('n2', 3)
    c1 = [S.int(f'c1{i}', 1) for i in range(n1)]
    c2 = [S.int(f'c2{i}', 1) for i in range(n2)]
    same_d = n1 == n2 and all(p == q for p, q in zip(c1, c2))
    if S.flag('edges'):
        ends = frozenset({ValueNode(va, xs[0]), ValueNode(vb, xs[0])})
        e2 = S.pick('e2', [{va, vb}, {va, vc}])
        a = FoldedEdge({va, vb}, {RelationEdge(ends, rs[i]): c for i, c in enumerate(c1)})
        b = FoldedEdge(e2, {RelationEdge(ends, rs[i]): c for i, c in enumerate(c2)})
        eqs(S, a, b, {va, vb} == e2 and same_d, 'folded-edge', lambda: (a, b))
        other_kinds(S, a, [VariableEdge({va, vb}), ActiveEdge({va, vb}, {}, False), VariableNode(va), a.endpoints, None, 0], 'folded-edge')
        S.check(S.refused(S.attempt(copy.copy, a)), 'copy-refused')
    else:
        v2 = S.pick('v2', [va, vb])
        a = FoldedNode(va, set(xs), {ValueNode(va, xs[i]): c for i, c in enumerate(c1)}, 100)
        b = FoldedNode(v2, set(xs), {ValueNode(v2, xs[i]): c for i, c in enumerate(c2)}, 100)
        eqs(S, a, b, va == v2 and same_d, 'folded-node', lambda: (a, b))
        other_kinds(S, a, [VariableNode(va), ActiveNode(va, {}, False), VariableEdge({va, vb}), va, None, 0], 'folded-node')
        S.check(a.variable == va and a.values == frozenset(xs), 'folded-node-content')
        S.check(S.refused(S.attempt(copy.copy, a)), 'copy-refused')


def graphs(S):
    """folded graphs of two sets of outcomes are equal iff they count the same"""
    voc = Vocab(S, 2, 2, 1)
    pool = all_specs(voc, 2)
    p = outcomes(S, voc, pool, S.deep(2, 2), name='p')
    q = outcomes(S, voc, pool, S.deep(1, 2), name='q')
    fp, fq = graph(voc, p).folded_graph('p'), graph(voc, q).folded_graph('q')

    def content(ps):
        d = {}
        for s, c in ps:
            for k in s.elements():
                d[k] = d.get(k, 0) + c
        return d
    cp, cq = content(p), content(q)
    same = set(cp) == set(cq) and all(cp[k] == cq[k] for k in cp)
    S.check((fp == fq) == same, 'graph-equal-iff-same-content', lambda: (p, q))
    S.check((fp != fq) != same, 'graph-ne-is-negation', lambda: (p, q))
    S.check(fp == graph(voc, list(reversed(p))).folded_graph('other'), 'graph-equal-whatever-the-order-and-name', lambda: p)
    S.check(not (fp == 'p') and not (fp == fp.nodes), 'never-equals-other-kind')
    S.check(repr(fp) == 'p', 'name-kept')
    S.check(S.refused(S.attempt(copy.copy, fp)), 'copy-refused')


def variables_graphs(S):
    from scripts.relnet.variables_graph import VariablesGraph, VariableNode, VariableEdge
    from scripts.relnet.folded_graph import FoldedGraph, FoldedNode, FoldedEdge
    from scripts.relnet.activation_graph import ActivationGraph, ActiveNode, ActiveEdge
    voc = Vocab(S, 3, 1, 1)
    sh = connected_shapes(3)

    def mk(name):
        nodes, es = sh[S.choose(name, len(sh))]
        n = S.int(name + '.n', 1)
        ns, ed = {VariableNode(voc.vars[i]) for i in nodes}, {VariableEdge({voc.vars[a], voc.vars[b]}) for a, b in es}
        if kind == 1:
            ns = {FoldedNode(voc.vars[i], set(voc.vals), {}, 1) for i in nodes}
            ed = {FoldedEdge({voc.vars[a], voc.vars[b]}, {}) for a, b in es}
        elif kind == 2:
            ns = {ActiveNode(voc.vars[i], {}, False) for i in nodes}
            ed = {ActiveEdge({voc.vars[a], voc.vars[b]}, {}, False) for a, b in es}
        g = (VariablesGraph, FoldedGraph, ActivationGraph)[kind](voc.provider, n, ns, ed, name)
        ns.clear()      # the graph keeps what it was given
        ed.clear()
        return (nodes, es), g, n
    kind = S.choose('kind', 3)
    sa, a, n = mk('a')
    sb, b, m = mk('b')
    S.check((a == b) == (sa == sb), 'graph-equal-iff-same-content', lambda: (sa, sb))
    S.check((a != b) == (sa != sb), 'graph-ne-is-negation', lambda: (sa, sb))
    S.check(a.variables == frozenset(voc.vars[i] for i in sa[0]), 'graph-variables', lambda: (sa, a.variables))
    S.eq(a.number_of_outcomes, n, 'graph-number-of-outcomes')
    S.check(len(a.nodes) == len(sa[0]) and len(a.edges) == len(sa[1]), 'graph-content')


def large(S):
    """nodes, edges and folded graphs of more contents, which differ in one count at most"""
    from scripts.relnet.activation_graph import ActiveNode, ActiveEdge
    from scripts.relnet.folded_graph import FoldedNode, FoldedEdge
    from scripts.relnet.graph_components import ValueNode, RelationEdge
    va, vb = S.atoms('var', 2)
    xs = S.atoms('val', 8)
    ends = frozenset({ValueNode(va, xs[0]), ValueNode(vb, xs[0])})
    cs = [S.int(f'c{i}', 1) for i in range(8)]
    k, n = S.choose('where', 8), S.int('other', 1)
    ds = [n if i == k else c for i, c in enumerate(cs)]
    same = n == cs[k]
    kind = S.choose('kind', 4)
    make = [lambda c: ActiveNode(va, dict(zip(xs, c)), False), lambda c: ActiveEdge({va, vb}, dict(zip(xs, c)), True),
            lambda c: FoldedNode(va, set(xs), {ValueNode(va, x): y for x, y in zip(xs, c)}, 100),
            lambda c: FoldedEdge({va, vb}, {RelationEdge(ends, x): y for x, y in zip(xs, c)})][kind]
    eqs(S, make(cs), make(ds), same, 'larger', lambda: (kind, cs, ds))


def large_graphs(S):
    voc = big.vocab(S)
    p = big.many(S, voc)
    k, n = S.choose('where', len(p)), S.int('other', 1)
    q = [(s, n if i == k else c) for i, (s, c) in enumerate(p)]
    fp, fq = graph(voc, p).folded_graph('p'), graph(voc, q[::-1]).folded_graph('q')
    S.check((fp == fq) == (n == p[k][1]), 'graph-equal-iff-same-content', lambda: (p, q))


def contents(S):
    """graphs with the same variables and links are equal exactly when every node and every edge has the same content"""
    from scripts.relnet.folded_graph import FoldedGraph, FoldedNode, FoldedEdge
    from scripts.relnet.activation_graph import ActivationGraph, ActiveNode, ActiveEdge
    from scripts.relnet.graph_components import ValueNode, RelationEdge
    voc = Vocab(S, 3, 2, 2)
    va, vb, vc = voc.vars
    kind = S.choose('kind', 2)
    where = S.choose('where', 6)
    n, m = S.int('n', 1), S.int('m', 1)
    q = [False] * 6
    if kind and S.flag('mark'):
        q[where] = True
    ends = {k: frozenset({ValueNode(k[0], voc.vals[0]), ValueNode(k[1], voc.vals[0])}) for k in ((va, vb), (vb, vc), (va, vc))}

    def mk(c, q, rel, name):
        if kind:
            ns = {ActiveNode(v, {voc.vals[0]: c[i], voc.vals[1]: 1}, q[i]) for i, v in enumerate(voc.vars)}
            es = {ActiveEdge(set(k), {rel[i]: c[3 + i]}, q[3 + i]) for i, k in enumerate(ends)}
            return ActivationGraph(voc.provider, 100, ns, es, name)
        ns = {FoldedNode(v, set(voc.vals), {ValueNode(v, voc.vals[0]): c[i], ValueNode(v, voc.vals[1]): 1}, 100) for i, v in enumerate(voc.vars)}
        es = {FoldedEdge(set(k), {RelationEdge(x, rel[i]): c[3 + i]}) for i, (k, x) in enumerate(ends.items())}
        return FoldedGraph(voc.provider, 100, ns, es, name)
    r0, r1 = voc.rels
    other = S.choose('relation', 4)
    a = mk([n] * 6, [False] * 6, [r0] * 3, 'a')
    b = mk([m if i == where else n for i in range(6)], q, [r1 if i == other else r0 for i in range(3)], 'b')
    same = n == m and not any(q) and other == 3
    S.check((a == b) == same and (b == a) == same, 'graph-equal-iff-same-content', lambda: (a.nodes, a.edges, b.nodes, b.edges))
    S.check((a != b) != same, 'graph-ne-is-negation', lambda: (a.nodes, b.nodes))
    S.check(a != {va} and not (a == (a.nodes, a.edges)), 'never-equals-other-kind')


SCENARIOS = {'plain': plain, 'active': active, 'folded': folded, 'graphs': graphs, 'variables_graphs': variables_graphs, 'contents': contents}
SCENARIOS['large'] = large
SCENARIOS['large_graphs'] = large_graphs
