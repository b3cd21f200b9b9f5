"""C01 identity of value nodes, relation edges and directed relations"""
import copy
from types import SimpleNamespace

BOUNDS = {'quick': 'one pair of nodes/edges/arrows, four independent names per kind (all equality patterns, any text), 3 hash layouts',
          'thorough': 'the same (the claim is about pairs)'}
OUTSIDE = 'names which are not hashable or whose == is not an equivalence'


def node_identity(S):
    from scripts.relnet.graph_components import ValueNode
    S.hash_orders(1, collide=True)
    x1, y1, x2, y2 = (S.atom(n, 'name') for n in ('x1', 'y1', 'x2', 'y2'))
    n1, n2 = ValueNode(x1, y1), ValueNode(x2, y2)
    same = x1 == x2 and y1 == y2
    S.check((n1 == n2) is same or (n1 == n2) == same, 'node-eq-iff-same-variable-and-value', (n1, n2))
    S.check((n1 != n2) != same, 'node-ne-is-negation', (n1, n2))
    S.check((n2 == n1) == same, 'node-eq-symmetric', (n1, n2))
    S.check((n2 in {n1}) == same, 'node-set-membership', (n1, n2))
    S.check(({n1: 0}.get(n2) == 0) == same, 'node-dict-lookup', (n1, n2))
    S.check(len({n1, n2}) == (1 if same else 2), 'node-set-size', (n1, n2))
    if same:
        S.check(hash(n1) == hash(n2), 'node-hash-consistent', (n1, n2))
    S.check(n1 == n1, 'node-eq-reflexive')
    S.check(n1.variable == x1 and n1.value == y1, 'node-keeps-variable-and-value')
    S.check(n1.var_val() == (x1, y1), 'node-var-val')
    alike = SimpleNamespace(variable=x1, value=y1, string_id=n1.string_id)
    S.check(not (n1 == alike) and not (n1 == (x1, y1)) and not (n1 == n1.string_id) and n1 != None, 'node-never-equals-other-kind')  # noqa
    S.check(S.refused(S.attempt(copy.copy, n1)), 'node-copy-refused')


def edge_identity(S):
    from scripts.relnet.graph_components import ValueNode, RelationEdge
    S.hash_orders(3, collide=True)
    va, vb, vc = S.atoms('var', 3)
    x, y = S.atoms('val', 2)
    r1 = S.atom('r1', 'rel')
    r2 = S.atom('r2', 'rel')
    a1, b1 = (va, x), (vb, S.pick('vb1', [x, y]))
    p, q = S.pick('ends', [(va, vb), (vb, va), (va, vc), (vb, vc), (vc, va), (vc, vb)])
    a2, b2 = (p, S.pick('va2', [x, y])), (q, S.pick('vb2', [x, y]))
    A1, B1, A2, B2 = (ValueNode(*n) for n in (a1, b1, a2, b2))
    e1 = RelationEdge(frozenset({A1, B1}), r1)
    e2 = RelationEdge(frozenset({A2, B2}), r2)
    same = {a1, b1} == {a2, b2} and r1 == r2
    S.check((e1 == e2) == same, 'edge-eq-iff-same-endpoints-and-relation', (e1, e2))
    S.check((e2 == e1) == same, 'edge-eq-symmetric', (e1, e2))
    S.check((e1 != e2) != same, 'edge-ne-is-negation', (e1, e2))
    S.check(len({e1, e2}) == (1 if same else 2), 'edge-set-size', (e1, e2))
    S.check((e2 in {e1}) == same, 'edge-set-membership', (e1, e2))
    if same:
        S.check(hash(e1) == hash(e2), 'edge-hash-consistent', (e1, e2))
    S.check({e1.a, e1.b} == {A1, B1}, 'edge-ends-are-the-endpoints', e1)
    S.check(e1.endpoints == frozenset({A1, B1}) and e1.relation == r1, 'edge-keeps-endpoints-and-relation', e1)
    for n, o in ((A1, B1), (B1, A1)):
        S.check(e1.is_endpoint(ValueNode(n.variable, n.value)), 'edge-is-endpoint', (e1, n))
        S.check(e1.opposite_endpoint(ValueNode(n.variable, n.value)) == o, 'edge-opposite-endpoint', (e1, n))
    for n in (A2, B2, ValueNode(vc, x)):
        inside = n.var_val() in (a1, b1)
        S.check(e1.is_endpoint(n) == inside, 'edge-is-endpoint', (e1, n))
        r = S.attempt(e1.opposite_endpoint, n)
        S.check(S.refused(r) != inside, 'edge-opposite-of-stranger-refused', (e1, n, r))
    alike = SimpleNamespace(endpoints=e1.endpoints, relation=r1, a=e1.a, b=e1.b)
    S.check(not (e1 == alike) and not (e1 == e1.endpoints) and not (e1 == (e1.endpoints, r1)) and not (e1 == A1) and not (A1 == e1),
            'edge-never-equals-other-kind')
    S.check(S.refused(S.attempt(copy.copy, e1)), 'edge-copy-refused')


def directed_identity(S):
    from scripts.relnet.graph_components import ValueNode, RelationEdge, DirectedRelation
    S.hash_orders(1, collide=True)
    s1, t1, r1, s2, t2, r2 = (S.atom(n, 'name') for n in ('s1', 't1', 'r1', 's2', 't2', 'r2'))
    d1, d2 = DirectedRelation(s1, t1, r1), DirectedRelation(s2, t2, r2)
    same = s1 == s2 and t1 == t2 and r1 == r2
    S.check((d1 == d2) == same, 'directed-eq-iff-same-source-target-relation', (d1, d2))
    S.check((d1 != d2) != same, 'directed-ne-is-negation', (d1, d2))
    S.check(len({d1, d2}) == (1 if same else 2), 'directed-set-size', (d1, d2))
    if same:
        S.check(hash(d1) == hash(d2), 'directed-hash-consistent', (d1, d2))
    S.check(d1.source_variable == s1 and d1.target_variable == t1 and d1.relation == r1, 'directed-keeps-parts')
    alike = SimpleNamespace(source_variable=s1, target_variable=t1, relation=r1)
    S.check(not (d1 == r1) and not (d1 == (s1, t1, r1)) and not (d1 == alike), 'directed-never-equals-plain-relation')
    S.check(S.refused(S.attempt(copy.copy, d1)), 'directed-copy-refused')
    if s1 != t1:
        ends = frozenset({ValueNode(s1, r1), ValueNode(t1, r1)})
        rev = DirectedRelation(t1, s1, r1)
        S.check(RelationEdge(ends, d1) != RelationEdge(ends, rev), 'edge-direction-matters', d1)
        S.check(RelationEdge(ends, d1) != RelationEdge(ends, r1), 'edge-directed-differs-from-plain', d1)
        S.check(RelationEdge(ends, d1) == RelationEdge(ends, DirectedRelation(s1, t1, r1)),
                'edge-directed-equal', d1)


SCENARIOS = {'node_identity': node_identity, 'edge_identity': edge_identity, 'directed_identity': directed_identity}
