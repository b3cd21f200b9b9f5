"""C26 texts tell the content, sorted, whatever the order it came in"""
from props.common import Vocab
from props.spaces import all_specs, outcomes

BOUNDS = {'quick': 'arbitrary names (as opaque words), unbounded symbolic counts and weights, up to 3 values, relations or samples '
                   'each, any order of insertion and of the iteration over sets; up to 12 entries', 'thorough': 'up to 4'}
OUTSIDE = 'names which contain the separators of the texts'


def txt(*parts):
    out = ''
    for p in parts:
        out = out + (p if type(p) is str else str(p))
    return out


def listed(pairs, sep=','):
    return sep.join(sorted(txt(x, '(', c, ')') for x, c in pairs))


def components(S):
    from scripts.relnet.graph_components import ValueNode, RelationEdge, DirectedRelation
    S.text_tokens()
    S.orders(2)
    va, vb = S.atoms('var', 2)
    xa, xb = S.atom('xa', 'val'), S.atom('xb', 'val')
    r = S.atom('r', 'rel')
    a, b = ValueNode(va, xa), ValueNode(vb, xb)
    ta, tb = txt('(', va, '_', xa, ')'), txt('(', vb, '_', xb, ')')
    S.check(str(a) == ta and repr(a) == ta, 'node-text', lambda: (ta, str(a)))
    d = DirectedRelation(va, vb, r)
    td = txt(r, '[', va, '->', vb, ']')
    S.check(str(d) == td and repr(d) == td, 'directed-relation-text', lambda: (td, str(d)))
    k = S.choose('kind', 2)
    e = RelationEdge(frozenset([a, b] if S.flag('ab') else [b, a]), (r, d)[k])
    p, q = sorted([ta, tb])
    te = txt(p, '--{', (str(r), td)[k], '}--', q)
    S.check(str(e) == te and repr(e) == te, 'edge-text', lambda: (te, str(e)))


def counted(S):
    """nodes and edges of variable level graphs"""
    from scripts.relnet.variables_graph import VariableNode, VariableEdge
    from scripts.relnet.folded_graph import FoldedNode, FoldedEdge
    from scripts.relnet.activation_graph import ActiveNode, ActiveEdge
    from scripts.relnet.graph_components import ValueNode, RelationEdge
    S.text_tokens()
    S.orders(2)
    va, vb = S.atoms('var', 2)
    lo, hi = sorted([str(va), str(vb)])
    S.check(str(VariableNode(va)) == txt('(', va, ')'), 'variable-node-text')
    S.check(str(VariableEdge({va, vb})) == txt('(', lo, ')--(', hi, ')'), 'variable-edge-text')
    n = 1 + S.choose('n', S.deep(3, 4))
    names = S.atoms('val', n)
    counts = [S.int(f'c{i}', 1, 50) for i in range(n)]
    order = S.perm('order', list(range(n)))
    kind = S.choose('kind', 4)
    if kind == 0:
        f = FoldedNode(va, set(names), {ValueNode(va, names[i]): counts[i] for i in order}, 500)
        want = txt('(', va, ':{', listed(zip(names, counts)), '})')
    elif kind == 1:
        ends = frozenset({ValueNode(va, names[0]), ValueNode(vb, names[0])})
        f = FoldedEdge({va, vb}, {RelationEdge(ends, names[i]): counts[i] for i in order})
        want = txt('(', lo, ')--{', listed(zip(names, counts)), '}--(', hi, ')')
    elif kind == 2:
        w = [S.real(f'w{i}', 0, 1) for i in range(n)]
        q = S.flag('in_query')
        f = ActiveNode(va, {names[i]: w[i] for i in order}, q)
        want = txt('Q' if q else '', '(', va, ':{', listed(zip(names, w)), '})')
    else:
        q = S.flag('in_query')
        f = ActiveEdge({va, vb}, {names[i]: counts[i] for i in order}, q)
        want = txt('(', lo, ')--', 'Q' if q else '', '{', listed(zip(names, counts)), '}--(', hi, ')')
    S.check(str(f) == want and repr(f) == want, 'text-of-the-content', lambda: (kind, want, str(f)))


def sets(S):
    """sample sets and builders"""
    from scripts.relnet.sample_set import SampleSetBuilder
    from scripts.relnet.relation_graph import RelationGraphBuilder
    S.text_tokens()
    voc = Vocab(S, 2, 1, 2)
    n = S.choose('n', 3)
    ps = outcomes(S, voc, all_specs(voc, 2), n) if n else []
    order = S.perm('order', list(range(n)))
    b = SampleSetBuilder(voc.provider)
    g = RelationGraphBuilder(components_provider=voc.provider, name='g')
    lines, tot = [], 0
    for i in order:
        s = voc.build(ps[i][0], name='named' if i == 0 and S.flag('named') else None)
        b.add(s, ps[i][1])
        g.add_outcome(s, ps[i][1])
        lines.append(txt('    ', s.name, ': ', ps[i][1]))
        tot = tot + ps[i][1]
    S.check(str(b) == txt('SampleSetBuilder(length = ', tot, ')'), 'set-builder-text', lambda: str(b))
    S.check(str(g) == txt('RelationGraphBuilder(name = g, len(outcomes) = ', tot, ')'), 'graph-builder-text', lambda: str(g))
    want = txt('{\n', '\n'.join(sorted(lines)), '\n}')
    S.check(str(b.build()) == want and repr(b.build()) == want, 'set-text', lambda: (str(b.build()), want))


def builders(S):
    S.text_tokens()
    voc = Vocab(S, 3, 1, 1)
    x = voc.builder()
    name = S.pick('name', [None, 'n1'])
    k = 0
    for (i, j) in ((0, 1), (1, 2)):
        if S.flag(f'e{i}') or k:
            x.add_relation({(voc.vars[i], voc.vals[0]), (voc.vars[j], voc.vals[0])}, voc.rels[0])
            k += 1
    x.set_name(name)
    S.check(str(x).endswith(f'(name = {name}, len(nodes) = {k + 1 if k else 0}, len(edges) = {k})'), 'sample-builder-text',
            lambda: str(x))
    if k:
        s = x.build()
        S.check(str(s) == repr(s) == s.name, 'sample-text-is-its-name')


def large(S):
    """sorted as texts, also when there are more than ten"""
    from scripts.relnet.sample_set import SampleSetBuilder
    from scripts.relnet.relation_graph import RelationGraphBuilder
    from scripts.relnet.folded_graph import FoldedNode
    from scripts.relnet.activation_graph import ActiveEdge
    from scripts.relnet.graph_components import ValueNode
    names = S.pick('names', [list(range(12)), [f'x{i}' for i in range(12)], ['a', 'B', '', 'aa', 'A', '10', '9', '\u00e9', '~', 'Z', 'z', '-1']])
    by = S.choose('by', 3)
    order = [range(12), range(11, -1, -1), [5 * i % 12 for i in range(12)]][by]
    n = S.pick('n', [5, 10, 11, 12])
    order = [i for i in order if i < n]
    counts = [3 + 7 * i % 12 for i in range(12)]
    f = FoldedNode('v', set(names), {ValueNode('v', names[i]): counts[i] for i in order}, 500)
    S.check(str(f) == '(v:{' + listed([(names[i], counts[i]) for i in order]) + '})', 'text-of-the-content', lambda: str(f))
    e = ActiveEdge({'v', 'u'}, {names[i]: counts[i] for i in order}, False)
    S.check(str(e) == '(u)--{' + listed([(names[i], counts[i]) for i in order]) + '}--(v)', 'text-of-the-content', lambda: str(e))
    b = RelationGraphBuilder({'v': set(names)}, {'r'})
    for i in order:
        b.add_outcome(b.sample_builder().build_single_node('v', names[i]), counts[i])
    o = b.build().outcomes
    want = '{\n' + '\n'.join(sorted(f'    {{(v_{names[i]})}}: {counts[i]}' for i in order)) + '\n}'
    S.check(str(o) == want, 'set-text', lambda: (str(o), want))
    c = RelationGraphBuilder({'c': {'0'}, **{str(x): {'0'} for x in names}}, {'r'})
    sb = c.sample_builder()
    for i in order:
        sb.add_relation({('c', '0'), (str(names[i]), '0')}, 'r')
    parts = sorted('--{r}--'.join(sorted(['(c_0)', f'({names[i]}_0)'])) for i in order)
    S.check(sb.build().text_view() == '{' + '; '.join(parts) + '}', 'sample-text', lambda: sb.build().text_view())


def alike(S):
    """parts which look alike are listed each, weights with all their digits"""
    from scripts.relnet.folded_graph import FoldedNode, FoldedEdge
    from scripts.relnet.activation_graph import ActiveNode, ActiveEdge
    from scripts.relnet.variables_graph import VariableEdge
    from scripts.relnet.graph_components import ValueNode, RelationEdge, DirectedRelation
    from scripts.relnet.relation_graph import RelationGraphBuilder
    S.hash_orders(2)
    kind = S.choose('kind', 6)
    c = S.pick('c', [(1, 1, 1), (1, 2, 1), (2, 10, 1)])
    order = S.perm('order', [0, 1, 2])
    if kind == 0:
        rel = S.pick('rel', ['r', DirectedRelation('u', 'v', 'r')])
        es = [RelationEdge(frozenset({ValueNode('u', i), ValueNode('v', 0)}), rel) for i in range(3)]
        f = FoldedEdge({'u', 'v'}, {es[i]: c[i] for i in order})
        want = '(u)--{' + listed([(rel, x) for x in c]) + '}--(v)'
    elif kind == 1:
        vals = [1, '1', '1 ']
        f = FoldedNode('v', set(vals), {ValueNode('v', vals[i]): c[i] for i in order}, 100)
        want = '(v:{' + listed(zip(vals, c)) + '})'
    elif kind == 2:
        w = [S.pick(f'w{i}', [1 / 3, 2.5e-9, 0.12345678901234567, 0.0]) for i in range(3)]
        vals = [1, '1', 'x']
        f = ActiveNode('v', {vals[i]: w[i] for i in order}, False)
        want = '(v:{' + listed(zip(vals, w)) + '})'
    elif kind == 3:
        vals = [1, '1', 'x']
        f = ActiveEdge({'v', 'u'}, {vals[i]: c[i] for i in order}, False)
        want = '(u)--{' + listed(zip(vals, c)) + '}--(v)'
    elif kind == 4:
        names = S.pick('names', [('same', 'same', 'same'), ('same', 'same', 'same!'), ('a', 'a b', 'a')])
        b = RelationGraphBuilder({'v': {0, 1, 2}}, {'r'})
        for i in order:
            b.add_outcome(b.sample_builder().set_name(names[i]).build_single_node('v', i), c[i])
        f = b.build().outcomes
        want = '{\n' + '\n'.join(sorted(f'    {n}: {k}' for n, k in zip(names, c))) + '\n}'
    else:
        b = RelationGraphBuilder({'v': {1, '1'}, 'u': {0, '0'}, 'w': {0}}, {'r'})
        sb = b.sample_builder().add_relation({('v', 1), ('u', 0)}, 'r').add_relation({('v', 1), ('w', 0)}, 'r')
        f = sb.build()
        want = '{' + '; '.join(sorted(['(u_0)--{r}--(v_1)', '(v_1)--{r}--(w_0)'])) + '}'
    S.check(str(f) == want and repr(f) == want, 'text-of-the-content', lambda: (kind, want, str(f)))


SCENARIOS = {'components': components, 'counted': counted, 'sets': sets, 'builders': builders, 'alike': alike}
SCENARIOS['large'] = large
