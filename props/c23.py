"""C23 visualizations show exactly what is there and write only beside the caller"""
from props.common import numbers, Vocab, Spec, iso_shapes
from props.spaces import all_specs, outcomes, graph, total
from props import large as big

BOUNDS = {'quick': 'samples over 3 variables with arrows; 1-2 outcomes over 2 variables with evidence; symbolic names; file '
                   'names of 3 characters out of 14 kinds; 23 outcomes of one variable, 14 over 7 variables', 'thorough': 'outcomes over 3 variables, names of 4 characters'}
OUTSIDE = 'the rendering by pyvis itself (recorded by a stand-in); names whose joined texts collide'
CHARS = ['a', 'Z', '7', '_', '-', '(', ')', '/', '.', ' ', '\\', '\u00e9', '%', '\n']


def rendered(fn, *a, **k):
    from pyvis.network import Network
    n = len(Network.made)
    fn(*a, **k)
    new = Network.made[n:]
    return new


def sized(S, fn, *a):
    """renders with a window size which may be given; the page has that size, square otherwise"""
    k = S.pick('size', [{}, {'height': '300px', 'width': '200px'}])
    nets = rendered(fn, *a, **k)
    if k:
        S.check(all(n.size == ('300px', '200px') for n in nets), 'window-of-the-asked-size', lambda: [n.size for n in nets])
    return nets


def parts(label):
    """the parts of a label {a,b,c} in whatever order"""
    t = label[label.index('{') + 1:label.rindex('}')]
    return sorted(p.strip() for p in t.split(','))


def one_page(S, nets, stem, label):
    S.check(len(nets) == 1 and len(nets[0].shown) == 1, label + 'one-page-shown', lambda: nets)
    if stem is not None:
        S.check(nets[0].shown[0] == stem + '.html', label + 'file-name', lambda: (nets[0].shown, stem))


def sample(S):
    S.text_tokens()
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', directed=True, shapes=S.deep(iso_shapes(3), None), values=2)
    shown_sample(S, voc, a)


def shown_sample(S, voc, a):
    g = voc.build(a, name='pic')
    nets = sized(S, g.visualize)
    one_page(S, nets, 'pic', '')
    net = nets[0]
    ids = {str(v) + '_' + str(x): (v, x) for v, x in a.nodes.items()}
    S.check({n for n, _, _ in net.nodes} == set(ids) and all(n == l for n, l, _ in net.nodes), 'a-node-per-node',
            lambda: (a, net.nodes))
    got = {(frozenset((ids[p], ids[q])), k['label']) for p, q, k in net.edges}
    S.check(got == {(e, str(r)) for e, r in a.edge_set()} and len(net.edges) == len(a.edges), 'a-line-per-link',
            lambda: (a, net.edges))


def space(S):
    """all outcomes, and the evidence in red"""
    S.text_tokens()
    voc = Vocab(S, 2, 2, 1)
    pool = all_specs(voc, 2, empty=True)
    ps = [(s, c) for s, c in outcomes(S, voc, pool, 1 + S.choose('n', 2))]
    shown_space(S, voc, ps, pool)


def shown_space(S, voc, ps, pool):
    g = graph(voc, ps, name='space')
    e = None
    if S.flag('evidence'):
        e = pool[S.choose('e', len(pool))]
        g = g.conditional_graph(voc.build(e), name='space')
        ps = [(s, c) for s, c in ps if e.elements() <= s.elements() or not (e.variables() & s.variables())]
    name = S.pick('name', [None, 'given'])
    nets = sized(S, g.visualize_outcomes, name) if name else sized(S, g.visualize_outcomes)
    one_page(S, nets, name or 'space', '')
    net = nets[0]
    red = [n for n in net.nodes if n[2].get('color') == 'red']
    plain = [n for n in net.nodes if n[2].get('color') != 'red']
    S.check(len(plain) == sum(max(len(s.nodes), 1) for s, _ in ps), 'a-node-per-node-of-each-outcome', lambda: (ps, plain))
    S.check(len([x for x in net.edges if x[2].get('color') != 'red']) == sum(len(s.edges) for s, _ in ps),
            'a-line-per-link-of-each-outcome', lambda: (ps, net.edges))
    # components: follow the lines, each component shows one outcome
    comp = components([n for n, _, _ in net.nodes], [(p, q) for p, q, _ in net.edges])
    labels = {n: l for n, l, _ in net.nodes}
    want = []
    for s, c in ps:
        nid = {v: str(v) + '_' + str(x) for v, x in s.nodes.items()}
        lines = sorted((sorted(nid[v] for v in ends), str(r)) for ends, r in s.edges.items())
        want.append((sorted(nid.values()) or [''], lines, str(voc.build(s)) + '(' + str(c) + ')'))
    heads = 0
    for c in comp:
        if all(any(n == m for m, _, _ in plain) for n in c):
            ls = [labels[n] for n in c]
            head = [l for l in ls if '@' in l]
            S.check(len(head) == 1, 'one-named-node-per-outcome', lambda: ls)
            heads += 1
            bare = {n: labels[n].split('@')[0] for n in c}
            base = sorted(bare.values())
            lines = sorted((sorted((bare[p], bare[q])), k['label']) for p, q, k in net.edges if p in c)
            got = (base, lines, head[0].split('@')[1])
            S.check(got in want, 'component-shows-an-outcome', lambda: (got, want))
            want = [w for w in want if w != got]
    S.check(heads == len(ps), 'a-component-per-outcome', lambda: (ps, net.nodes))
    if e is None:
        S.check(not red, 'no-evidence-no-red')
    else:
        S.check(sorted(l for _, l, _ in red) == sorted(str(v) + '_' + str(x) for v, x in e.nodes.items()),
                'evidence-in-red', lambda: (e, red))
        lines = sorted((sorted((labels[p], labels[q])), k['label']) for p, q, k in net.edges if k.get('color') == 'red')
        S.check(lines == sorted((sorted(str(v) + '_' + str(e.nodes[v]) for v in ends), str(r)) for ends, r in e.edges.items()),
                'evidence-links-in-red', lambda: (e, net.edges))


def components(nodes, edges):
    rest = set(nodes)
    out = []
    while rest:
        todo = [next(iter(rest))]
        c = set()
        while todo:
            x = todo.pop()
            if x in c:
                continue
            c.add(x)
            todo += [q for p, q in edges if p == x] + [p for p, q in edges if q == x]
        rest -= c
        out.append(c)
    return out


def folded(S):
    """every declared variable once, those without outcome in gray, every linked pair once"""
    S.text_tokens()
    voc = Vocab(S, 3, 2, 2)
    sh = [((0,), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),))]
    ps = [(s, S.pick(f'c{i}', [1, 4])) for i, (s, _) in enumerate(outcomes(S, voc, all_specs(voc, 3, shapes=sh), 2))]
    shown_folded(S, voc, ps)


def shown_folded(S, voc, ps):
    f = graph(voc, ps).folded_graph('fold')
    nets = sized(S, f.visualize)
    one_page(S, nets, 'fold', '')
    net = nets[0]
    S.check({n for n, _, _ in net.nodes} == set(voc.vars) and len(net.nodes) == len(voc.vars), 'a-node-per-variable', lambda: net.nodes)
    t = total(ps)
    for n, l, k in net.nodes:
        inc = sum(c for s, c in ps if n in s.nodes)
        S.check((k.get('color') == 'gray') == (inc == 0), 'absent-variable-gray', lambda: (n, k))
        S.check(l.startswith(str(n) + ':'), 'label-names-the-variable', lambda: (n, l))
        want = ['u(' + str(t - inc) + ')']
        for x in voc.vals:
            c = sum(c for s, c in ps if n in s.nodes and s.nodes[n] == x)
            if c or not inc:
                want.append(str(x) + '(' + str(c) + ')')
        S.check(parts(l) == sorted(want), 'label-tells-the-counts', lambda: (n, l, want))
    pairs = {ends for s, _ in ps for ends in s.edges}
    S.check({frozenset((p, q)) for p, q, _ in net.edges} == pairs and len(net.edges) == len(pairs),
            'a-line-per-linked-pair', lambda: net.edges)
    for p, q, k in net.edges:
        d = {}
        for s, c in ps:
            if frozenset((p, q)) in s.edges:
                key = (frozenset((v, s.nodes[v]) for v in (p, q)), s.edges[frozenset((p, q))])
                d[key] = d.get(key, 0) + c
        want = {str(r) + '(' + str(c) + ')' for (_, r), c in d.items()}
        S.check(set(parts(k['label'])) == want, 'line-tells-the-relations-and-counts', lambda: (k, want))


def activation(S):
    S.text_tokens()
    voc = Vocab(S, 3, 2, 1)
    v, x, r = voc.vars, voc.vals, voc.rels[0]
    e = Spec({v[0]: x[0]}, {})
    if S.flag('link'):
        e = Spec({v[0]: x[0], v[1]: x[0]}, {frozenset({v[0], v[1]}): r})
    sh = [((0,), ()), ((0, 1), ((0, 1),)), ((1, 2), ((1, 2),)), ((0, 1, 2), ((0, 1), (1, 2)))]
    pool = [s for s in all_specs(voc, 3, shapes=sh) if e.elements() <= s.elements() or not e.variables() & s.variables()]
    pool = pool or [e]
    ps = [(s, S.pick(f'c{i}', [1, 4])) for i, (s, _) in enumerate(outcomes(S, voc, pool, 2))]
    shown_activation(S, voc, ps, e)


def shown_activation(S, voc, ps, e):
    v, x = voc.vars, voc.vals
    ag = graph(voc, ps).conditional_graph(voc.build(e)).activation_graph(name='act')
    nets = sized(S, ag.visualize)
    one_page(S, nets, 'act', '')
    net = nets[0]
    S.check({n for n, _, _ in net.nodes} == set(v) and len(net.nodes) == len(v), 'a-node-per-variable', lambda: net.nodes)
    w = {n.variable: dict(n.values) for n in ag.nodes}
    for n, l, k in net.nodes:
        S.check((k.get('color') == 'green') == (n in e.nodes), 'evidence-green', lambda: (n, k))
        S.check(l.startswith(str(n) + ':'), 'label-names-the-variable', lambda: (n, l))
        if n not in e.nodes:
            S.check(k['color'] == '#%02X0000' % int(max(w[n].values()) * 255), 'colour-by-weight', lambda: (n, k, w))
        S.check(parts(l) == sorted(str(y) + '=' + str(w[n][y]) for y in x), 'label-tells-the-weights', lambda: (n, l, w))
    S.check({frozenset((p, q)) for p, q, _ in net.edges} == {ed.endpoints for ed in ag.edges}
            and len(net.edges) == len(ag.edges), 'a-line-per-active-pair', lambda: net.edges)
    by = {ed.endpoints: ed for ed in ag.edges}
    for p, q, k in net.edges:
        ed = by[frozenset((p, q))]
        S.check(parts(k['label']) == sorted(str(y) + '(' + str(c) + ')' for y, c in ed.relations),
                'line-tells-the-relations-and-counts', lambda: (k, ed))
        S.check((k['color'] == 'green') == ed.in_query, 'evidence-line-green', lambda: (k, ed))


def activation_part(S):
    """an activation graph which leaves variables out: they are shown with weight 0"""
    from scripts.relnet.activation_graph import ActivationGraph, ActiveNode
    S.text_tokens()
    voc = Vocab(S, 2, 2, 1)
    nodes = {}
    for i, v in enumerate(S.subset('in', voc.vars)):
        nodes[v] = ActiveNode(v, {x: w for x, w in zip(voc.vals, S.pick(f'w{i}', [(0, 1), (0.5, 0.25), (0, 0)]))}, S.flag(f'q{i}'))
    net = rendered(ActivationGraph(voc.provider, 3, set(nodes.values()), set(), 'part').visualize)[0]
    S.check({n for n, _, _ in net.nodes} == set(voc.vars) and len(net.nodes) == 2, 'a-node-per-variable', lambda: net.nodes)
    for n, l, k in net.nodes:
        w = dict(nodes[n].values) if n in nodes else {x: 0 for x in voc.vals}
        S.check(parts(l) == sorted(str(x) + '=' + str(y) for x, y in w.items()), 'label-tells-the-weights', lambda: (n, l, w))
        S.check((k['color'] == 'green') == (n in nodes and nodes[n].in_query), 'evidence-green', lambda: (n, k))
        if n not in nodes:
            S.check(k['color'] == 'black', 'left-out-variable-black', lambda: (n, k))


def file_names(S):
    from scripts.relnet.relation_graph import RelationGraphBuilder
    name = ''.join(CHARS[S.choose(f'c{i}', len(CHARS))] for i in range(S.deep(3, 4)))
    b = RelationGraphBuilder({'a': {'1'}, 'b': {'1'}}, {'r'}, name='own')
    s = b.sample_builder().set_name(name).add_relation({('a', '1'), ('b', '1')}, 'r').build()
    g = b.add_outcome(s).build()
    stem = ''.join(c for c in name if c.isalnum() or c == '_')
    wide = ''.join(c for c in name if c.isalnum() or c in '_-()')
    which = S.choose('which', 6)
    if which == 0:
        one_page(S, rendered(s.visualize), wide, '')
    elif which == 1:
        one_page(S, rendered(g.visualize_outcomes, name), stem, '')
    elif which == 2:
        one_page(S, rendered(g.folded_graph().visualize, name), stem, '')
    elif which == 3:
        one_page(S, rendered(g.conditional_graph(s).activation_graph(name=name).visualize), stem, '')
    elif which == 4:
        one_page(S, rendered(g.conditional_graph(s).activation_graph(name='other').visualize, name), stem, '')
    else:
        one_page(S, rendered(g.folded_graph(name).visualize), stem, '')


def large(S):
    """a dozen outcomes over 7 variables, and more than ten of one variable"""
    if S.flag('one'):
        S.number_names = True
        voc = Vocab(S, 2, 23, 1)
        ps = [(Spec({voc.vars[0]: x}, {}), 1 + i) for i, x in enumerate(voc.vals)]
        if S.flag('two'):
            ps = [(Spec({v: x for v in voc.vars}, {frozenset(voc.vars): voc.rels[0]}), 3) for x in voc.vals]
        if S.flag('reversed'):
            ps.reverse()
        shown_space(S, voc, ps, [ps[5][0]])
    else:
        S.text_tokens()
        voc = big.vocab(S)
        ps = [(s, i % 3 + 1) for i, (s, _) in enumerate(big.many(S, voc))]
        shown_space(S, voc, ps, [ps[0][0], ps[7][0], big.path(voc, (0, 1, 2, 3))])


def large_folded(S):
    """a folded and an activation graph over 7 variables"""
    S.text_tokens()
    voc = big.vocab(S)
    ps = [(s, i % 3 + 1) for i, (s, _) in enumerate(big.many(S, voc))]
    if S.flag('folded'):
        shown_folded(S, voc, ps)
    else:
        e = S.pick('e', [ps[0][0], ps[5][0], ps[7][0]])
        shown_activation(S, voc, ps, e)


def large_sample(S):
    S.text_tokens()
    voc = big.vocab(S)
    shown_sample(S, voc, S.pick('shape', big.shapes(voc)))


SCENARIOS = {'sample': sample, 'space': space, 'folded': folded, 'activation': activation,
             'activation_part': activation_part, 'file_names': file_names}
numbers(SCENARIOS, 'sample', 'space', 'folded', 'activation', twins=False)
SCENARIOS.update(large=large, large_folded=large_folded, large_sample=large_sample)
