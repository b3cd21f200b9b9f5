"""C02 the component provider admits exactly the declared vocabulary and hands out one instance per component"""

BOUNDS = {'quick': '2 variables with any non-empty own subset of 2 values, 3 node requests and 2 edge requests over known and unknown names'
                   '; 40 requests over 8 variables',
          'thorough': 'the same'}
OUTSIDE = 'longer request histories; larger vocabularies'


def nodes_by_vocabulary(S):
    from scripts.relnet.graph_components import BuilderComponentsProvider
    S.hash_orders(1, collide=True)
    v0, v1 = S.atoms('var', 2)
    x0, x1 = S.atoms('val', 2)
    r0 = S.atom('r0', 'rel')
    # which values belong to which variable is arbitrary (not empty)
    own = {v0: S.subset('own0', [x0, x1], 1), v1: S.subset('own1', [x0, x1], 1)}
    p = BuilderComponentsProvider({v: set(xs) for v, xs in own.items()}, {r0})
    S.check(p.variables() == frozenset((v, frozenset(xs)) for v, xs in own.items()), 'variables-reported')
    S.check(p.relations() == frozenset({r0}), 'relations-reported')
    # what was handed out is the caller's: whatever he does to it, the vocabulary stays
    other = ('not', 'declared')
    for got in (p.relations(), p.variables()):
        S.attempt(lambda: got.add(other))
        S.attempt(lambda: got.clear())
    S.check(p.variables() == frozenset((v, frozenset(xs)) for v, xs in own.items()), 'variables-stay')
    S.check(p.relations() == frozenset({r0}), 'relations-stay')
    made = {}
    for i in range(3):
        v = S.atom(f'v{i}', 'var')
        x = S.atom(f'x{i}', 'val')
        ok = v in own and x in own[v]
        n = S.attempt(p.get_node, v, x)
        S.check(S.refused(n) != ok, 'node-admitted-iff-declared', lambda: (v, x, own, n))
        if not S.refused(n):
            S.check(n.variable == v and n.value == x, 'node-is-the-asked-one', lambda: (v, x, n))
            for k, m in made.items():
                S.check((m is n) == (k == (v, x)), 'node-instance-canonical', lambda: (k, (v, x)))
            made[(v, x)] = n
    for (v, x), n in made.items():
        S.check(p.get_node(v, x) is n, 'node-instance-stable', lambda: (v, x))


def edges_by_vocabulary(S):
    from scripts.relnet.graph_components import BuilderComponentsProvider, DirectedRelation, ValueNode
    S.hash_orders(1, collide=True)
    vs = S.atoms('var', 3)
    x0, x1 = S.atoms('val', 2)
    rs = S.atoms('rel', 2)
    p = BuilderComponentsProvider({v: {x0, x1} for v in vs}, set(rs))
    created = [(vs[0], x0), (vs[1], x0), (vs[1], x1)]
    for n in created:
        p.get_node(*n)
    made = {}
    for i in range(2):
        b = S.pick(f'b{i}', [(vs[1], x0), (vs[1], x1), (vs[0], x1), (vs[2], x0)])
        ends = [(vs[0], x0), b]
        r = S.atom(f'r{i}', 'rel')
        kind = S.choose(f'kind{i}', 6)
        rel = r if kind == 0 else DirectedRelation(
            *[(ends[0][0], b[0], r), (b[0], ends[0][0], r), (vs[2], b[0], r), (ends[0][0], vs[2], r),
              (ends[0][0], ends[0][0], r)][kind - 1])
        ok = all(n in created for n in ends) and r in rs
        variables = {ends[0][0], b[0]}
        if kind:
            ok = ok and rel.source_variable in variables and rel.target_variable in variables
        fs = frozenset(ValueNode(*n) for n in ends)
        e = S.attempt(p.get_edge, fs, rel)
        S.check(S.refused(e) != ok, 'edge-admitted-iff-declared', lambda: (ends, rel, e))
        if not S.refused(e):
            S.check(e.endpoints == fs and e.relation == rel, 'edge-is-the-asked-one', lambda: (ends, rel, e))
            key = (frozenset(ends), rel)
            for k, m in made.items():
                S.check((m is e) == (k == key), 'edge-instance-canonical', lambda: (k, key))
            made[key] = e
    for (ends, rel), e in made.items():
        S.check(p.get_edge(frozenset(ValueNode(*n) for n in ends), rel) is e, 'edge-instance-stable', lambda: (ends, rel))


def empty_vocabulary_refused(S):
    from scripts.relnet.graph_components import BuilderComponentsProvider
    from scripts.relnet.relation_graph import RelationGraphBuilder
    vs = S.atoms('var', 3)
    x0 = S.atom('x0', 'val')
    rs = S.atoms('rel', 2)
    sub = S.subset('vs', vs)
    variables = {v: (set() if S.flag(f'empty{i}') else {x0}) for i, v in enumerate(sub)}
    relations = set(S.subset('rs', rs))
    ok = bool(sub) and all(len(x) > 0 for x in variables.values()) and len(relations) > 0
    r = S.attempt(BuilderComponentsProvider, variables, relations)
    S.check(S.refused(r) != ok, 'empty-vocabulary-refused', lambda: (variables, relations, r))
    r = S.attempt(RelationGraphBuilder, variables, relations)
    S.check(S.refused(r) != ok, 'empty-vocabulary-refused-by-graph-builder', lambda: (variables, relations, r))
    if not S.refused(r):
        S.check(r.variables == frozenset((v, frozenset(x)) for v, x in variables.items()), 'builder-variables')
        S.check(r.relations == frozenset(relations), 'builder-relations')


def large(S):
    """many requests over 8 variables with own values: one instance each, only for what is declared"""
    from scripts.relnet.graph_components import BuilderComponentsProvider, DirectedRelation
    vs, xs, rs = S.atoms('var', 8), S.atoms('val', 6), S.atoms('rel', 4)
    own = {v: xs[:1 + i % 6] for i, v in enumerate(vs)}
    p = BuilderComponentsProvider({v: set(x) for v, x in own.items()}, set(rs[:3]))
    S.check(p.variables() == frozenset((v, frozenset(x)) for v, x in own.items()) and p.relations() == frozenset(rs[:3]), 'variables-reported')
    nodes = {}
    for v in vs:
        for x in xs:
            n = S.attempt(p.get_node, v, x)
            S.check(S.refused(n) == (x not in own[v]), 'node-admitted-iff-declared', lambda: (v, x))
            if not S.refused(n):
                S.check(n.variable == v and n.value == x, 'node-is-the-asked-one', lambda: (v, x))
                nodes[v, x] = n
    S.check(len({id(n) for n in nodes.values()}) == len(nodes), 'node-instance-canonical')
    k = S.choose('from', 8)
    a = nodes[vs[k], xs[0]]
    edges = {}
    for (v, x), b in nodes.items():
        for r in list(rs) + [DirectedRelation(vs[k], v, rs[0]), DirectedRelation(v, vs[k], rs[0])]:
            if v != vs[k]:
                e = S.attempt(p.get_edge, frozenset({a, b}), r)
                S.check(S.refused(e) == (r == rs[3]), 'edge-admitted-iff-declared', lambda: (v, x, r))
                if not S.refused(e):
                    S.check(e.endpoints == frozenset({a, b}) and e.relation == r, 'edge-is-the-asked-one', lambda: (v, x, r))
                    edges[v, x, r] = e
    S.check(len({id(e) for e in edges.values()}) == len(edges), 'edge-instance-canonical')
    for (v, x), n in nodes.items():
        S.check(p.get_node(v, x) is n, 'node-instance-stable', lambda: (v, x))
    for (v, x, r), e in edges.items():
        S.check(p.get_edge(frozenset({nodes[v, x], a}), r) is e, 'edge-instance-stable', lambda: (v, x, r))


SCENARIOS = {'nodes_by_vocabulary': nodes_by_vocabulary, 'edges_by_vocabulary': edges_by_vocabulary,
             'empty_vocabulary_refused': empty_vocabulary_refused}
SCENARIOS['large'] = large
