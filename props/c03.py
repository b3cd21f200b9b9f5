"""C03 a sample under construction admits exactly the well formed steps and is always connected"""
import itertools

from props.common import numbers, Vocab, Spec, is_connected, view
from props import large as big

BOUNDS = {'quick': 'histories of 3 steps over 3 variables with 2 values, 2 relations, directed or not; any set of links over 4 variables with one value, or 3 links with two values; connectivity of any link set over 5 variables; 2 hash layouts'
                   '; fixed structures of 7 to 12 variables',
          'thorough': 'histories of 4 steps, connectivity over 6 variables, 2 hash layouts'}
OUTSIDE = 'longer histories; more than 6 variables; building from links on a builder which already has links'


def state(S, b):
    r = S.attempt(b.build)
    return None if S.refused(r) else view(r)


def step(S, voc, b, model, ends, rel, directed, label):
    """One add_relation / add_directed_relation against the model (nodes, links)"""
    nodes, links = model
    if directed:
        r = S.attempt(b.add_directed_relation, ends[0], ends[1], rel)
        relation = voc.directed(ends[0][0], ends[1][0], rel)
    else:
        r = S.attempt(b.add_relation, set(ends), rel)
        relation = rel
    es = frozenset(ends)
    ok = len(es) == 2 and len({v for v, _ in es}) == 2 \
        and all(v in voc.vars and x in voc.vals for v, x in es) and rel in voc.rels \
        and (not nodes or bool(es & nodes)) and es not in links
    S.check(S.refused(r) != ok, label + 'step-admitted-iff-well-formed', lambda: (ends, rel, directed, model, r))
    if ok:
        S.check(r is b, label + 'accepted-step-gives-the-builder')
        links = dict(links)
        links[es] = relation
        model = (nodes | es, links)
    got = state(S, b)
    want = None if not model[0] else (set(model[0]), set(model[1].items()))
    S.check(got == want, label + ('accepted-step-adds-exactly-it' if ok else 'refused-step-changes-nothing'),
            lambda: (got, want))
    return model


def histories(S):
    """any two further steps (any endpoints, relation, direction) after a first one"""
    S.hash_orders(2)
    voc = Vocab(S, 3, 2, 2)
    pool = [(v, x) for v in voc.vars for x in voc.vals]
    b = voc.builder()
    model = (frozenset(), {})
    a0, b0 = pool[0], pool[2]
    model = step(S, voc, b, model, (a0, b0), voc.rels[0], S.flag('d0'), '')
    for i in range(S.deep(2, 3)):
        pairs = list(itertools.combinations(pool if i < 2 else pool[::2], 2))
        p, q = pairs[S.choose(f'ends{i}', len(pairs))]
        k = S.choose(f'rel{i}', 3)
        if k == 2:
            p, q = (q, p) if S.flag(f'dir{i}') else (p, q)
        model = step(S, voc, b, model, (p, q), voc.rels[k % 2], k == 2, '')
    S.check(is_connected([n for n in model[0]], [tuple(e) for e in model[1]]), 'always-connected')


def continued(S):
    """a builder made from a sample (single node, empty or larger) goes on like the builder of that sample"""
    voc = Vocab(S, 4, 2, 2)
    x, y = voc.vals
    v = voc.vars
    k = S.choose('start', 4)
    if k == 0:
        b = voc.builder().build_single_node(v[0], x).builder()
        model = (frozenset({(v[0], x)}), {})
    elif k == 1:
        b = voc.builder().build_empty().builder()
        model = (frozenset(), {})
    else:
        b = voc.builder()
        model = (frozenset(), {})
        for i in range(k - 1):
            model = step(S, voc, b, model, ((v[i], x), (v[i + 1], x)), voc.rels[0], False, '')
        b = b.build().builder()
    got = state(S, b)
    S.check(got == (None if not model[0] else (set(model[0]), set(model[1].items()))), 'builder-of-a-sample', lambda: (got, model))
    pool = [(v[0], x), (v[0], y), (v[1], x), (v[2], x), (v[3], x)]
    for i in range(S.deep(2, 3)):
        pairs = list(itertools.combinations(pool, 2))
        p, q = pairs[S.choose(f'ends{i}', len(pairs))]
        model = step(S, voc, b, model, (p, q), voc.rels[S.choose(f'rel{i}', 2)], S.flag(f'd{i}') if i == 0 else False, '')


def bad_steps(S):
    """steps outside the vocabulary or with a wrong number of endpoints, at any point of a history"""
    voc = Vocab(S, 2, 2, 1)
    b = voc.builder()
    model = (frozenset(), {})
    if S.flag('started'):
        model = step(S, voc, b, model, ((voc.vars[0], voc.vals[0]), (voc.vars[1], voc.vals[0])), voc.rels[0], False, '')
    ends = []
    for i in range(S.choose('n', 4)):
        ends.append((S.atom(f'v{i}', 'var'), S.atom(f'x{i}', 'val')))
    rel = S.atom('r', 'rel')
    if len(ends) == 2 and S.flag('directed'):
        step(S, voc, b, model, tuple(ends), rel, True, '')
    elif len(set(ends)) == 2:
        step(S, voc, b, model, tuple(set(ends)), rel, False, '')
    else:
        before = state(S, b)
        r = S.attempt(b.add_relation, set(ends), rel)
        S.check(S.refused(r), 'wrong-number-of-endpoints-refused', lambda: ends)
        S.check(state(S, b) == before, 'refused-step-changes-nothing')


def from_edges(S):
    """build_from_edges on an arbitrary set of edges: accepted iff well formed and connected"""
    S.hash_orders(2)
    voc = Vocab(S, 4, 1, 2)
    pairs = list(itertools.combinations(voc.vars, 2))
    x = voc.vals[0]
    edges, links = set(), []
    for i, (p, q) in enumerate(pairs):
        k = S.choose(f'e{i}', 2)
        if k:
            r = voc.rels[S.choose(f'r{i}', 2) if i < 2 else i % 2]
            edges.add((frozenset({(p, x), (q, x)}), r))
            links.append((p, q))
    nodes = {v for l in links for v in l}
    ok = bool(links) and is_connected(nodes, links)
    r = S.attempt(voc.builder().build_from_edges, frozenset(edges))
    S.check(S.refused(r) != ok, 'edges-admitted-iff-connected', lambda: (edges, r))
    if not S.refused(r):
        S.check(view(r) == ({(v, x) for v in nodes}, edges), 'sample-has-exactly-the-edges', lambda: (edges, r))


def from_edges_values(S):
    """build_from_edges, endpoints with arbitrary values: the same variable with another value is another node"""
    voc = Vocab(S, 3, 2, 2)
    edges = set()
    n = S.choose('n', 3) + 1
    first = (frozenset({(voc.vars[0], voc.vals[0]), (voc.vars[1], voc.vals[0])}), voc.rels[0])
    edges.add(first)
    for i in range(n - 1):
        p = (S.pick(f'p{i}', voc.vars), S.pick(f'px{i}', voc.vals))
        q = (S.pick(f'q{i}', voc.vars), S.pick(f'qx{i}', voc.vals))
        edges.add((frozenset({p, q}), S.pick(f'r{i}', voc.rels)))
    ends = [e for e, _ in edges]
    S.assume(len(set(ends)) == len(ends))
    ok = all(len(e) == 2 and len({v for v, _ in e}) == 2 for e in ends)
    if ok:
        ok = is_connected({n for e in ends for n in e}, [tuple(e) for e in ends])
    r = S.attempt(voc.builder().build_from_edges, frozenset(edges))
    S.check(S.refused(r) != ok, 'edges-admitted-iff-well-formed-and-connected', lambda: (edges, r))
    if not S.refused(r):
        S.check(view(r) == ({n for e in ends for n in e}, edges), 'sample-has-exactly-the-edges', lambda: (edges, r))


def parallel_edges(S):
    """two different relations between the same two nodes are refused, whichever way the sample is built"""
    voc = Vocab(S, 3, 2, 2)
    p = (voc.vars[0], voc.vals[0])
    q = (voc.vars[1], S.pick('q', voc.vals))
    r1 = S.pick('r1', [voc.rels[0], voc.directed(p[0], q[0], voc.rels[0])])
    r2 = S.pick('r2', [voc.rels[0], voc.rels[1], voc.directed(p[0], q[0], voc.rels[0]),
                       voc.directed(q[0], p[0], voc.rels[0]), voc.directed(p[0], q[0], voc.rels[1])])
    S.assume(not (r1 == r2))
    edges = {(frozenset({p, q}), r1), (frozenset({p, q}), r2)}
    if S.flag('more'):
        edges.add((frozenset({q, (voc.vars[2], voc.vals[0])}), voc.rels[0]))
    r = S.attempt(voc.builder().build_from_edges, frozenset(edges))
    S.check(S.refused(r), 'parallel-edges-refused', lambda: (edges, r))
    b = voc.builder().add_relation({p, q}, r1)
    before = state(S, b)
    r = S.attempt(b.add_relation, {q, p}, r2)
    S.check(S.refused(r), 'parallel-relation-refused', lambda: (r1, r2))
    S.check(state(S, b) == before, 'refused-step-changes-nothing')


def connectivity(S):
    """the connectivity test itself, on every graph with up to 5 (thorough: 6) nodes"""
    from scripts.relnet.sample_graph import SampleGraphBuilder
    S.hash_orders(S.deep(1, 2))
    n = S.deep(5, 6)
    vs = S.atoms('var', n)
    x = S.atom('x', 'val')
    r = S.atom('r', 'rel')
    pairs = list(itertools.combinations(vs, 2))
    # up to renaming of the nodes the first edge is there
    on = [pairs[0]] + [p for i, p in enumerate(pairs[1:]) if S.flag(f'e{i}')]
    edges = frozenset((frozenset({(p, x), (q, x)}), r) for p, q in on)
    want = is_connected({v for p in on for v in p}, on)
    got = S.attempt(SampleGraphBuilder.is_edges_connected, edges)
    S.check(got is want, 'connectivity-verdict', lambda: (on, got))


def terminal_builds(S):
    voc = Vocab(S, 2, 2, 1)
    b = voc.builder()
    S.check(S.refused(S.attempt(b.build)), 'empty-builder-does-not-build')
    S.check(view(b.build_empty()) == (set(), set()), 'build-empty-is-empty')
    v = S.atom('v', 'var')
    x = S.atom('x', 'val')
    r = S.attempt(b.build_single_node, v, x)
    ok = v in voc.vars and x in voc.vals
    S.check(S.refused(r) != ok, 'single-node-admitted-iff-declared', lambda: (v, x))
    if ok:
        S.check(view(r) == ({(v, x)}, set()), 'single-node-is-the-node', lambda: r)
        S.check(r.is_single_node and not r.is_k_0, 'single-node-flags')
    S.check(S.refused(S.attempt(voc.builder().build_from_edges, frozenset())), 'no-edges-refused')
    e = voc.builder().build_empty()
    S.check(e.is_k_0, 'empty-flag')


def large(S):
    """a history of up to 20 steps over 7 variables, then any further step"""
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    b = voc.builder()
    model = (frozenset(), {})
    for ends, r in voc.ordered_edges(a):
        p, q = [(v, a.nodes[v]) for v in voc.vars if v in ends]
        b.add_relation({p, q}, r)
        model = (model[0] | {p, q}, {**model[1], frozenset({p, q}): r})
    S.check(state(S, b) == (set(model[0]), set(model[1].items())), 'sample-has-exactly-the-edges', lambda: a)
    i, j = S.choose('i', 7), S.choose('j', 7)
    S.assume(i != j)
    p = (voc.vars[i], a.nodes.get(voc.vars[i], voc.vals[0]))
    q = (voc.vars[j], a.nodes.get(voc.vars[j], voc.vals[0]) if j not in (3, 6) else voc.vals[3])
    if q[0] in a.nodes and q[1] != a.nodes[q[0]]:
        S.assume(False)
    step(S, voc, b, model, (p, q), voc.rels[0], S.flag('directed'), '')


def large_edges(S):
    """links over 8 to 12 variables, in one or in several pieces, perhaps with one of them missing"""
    from scripts.relnet.sample_graph import SampleGraphBuilder
    S.hash_orders(2)
    voc = Vocab(S, 12, 2, 2)
    ix = range(12)
    links = S.pick('shape', [[(i, i + 1) for i in range(11)], [(i, (i + 1) % 12) for i in ix], [(0, i) for i in range(1, 12)],
                             [(i, (i + 1) % 6) for i in range(6)] + [(6 + i, 6 + (i + 1) % 6) for i in range(6)] + [(5, 6)],
                             [(a, b) for a in range(4) for b in range(a)] + [(a, b) for a in range(4, 8) for b in range(4, a)] + [(0, 7)],
                             [(i, (i - 1) // 2) for i in range(1, 12)]])
    k = S.choose('gone', len(links) + 1)
    links = [l for i, l in enumerate(links) if i != k]
    x = voc.vals[0]
    edges = frozenset((frozenset({(voc.vars[a], x), (voc.vars[b], x)}), voc.rels[(a + b) % 2]) for a, b in links)
    ok = is_connected({v for l in links for v in l}, links)
    S.check(S.attempt(SampleGraphBuilder.is_edges_connected, edges) is ok, 'connectivity-verdict', lambda: links)
    r = S.attempt(voc.builder().build_from_edges, edges)
    S.check(S.refused(r) != ok, 'edges-admitted-iff-connected', lambda: (links, r))
    if not S.refused(r):
        S.check(view(r) == ({(voc.vars[i], x) for l in links for i in l}, set(edges)), 'sample-has-exactly-the-edges', lambda: (links, r))


def renamed(S):
    """every built sample has the name given last, or its own text, and the content of its time"""
    voc = Vocab(S, 4, 1, 1)
    names = [None, 'p', 'q', ' ', '{p']
    b = voc.builder()
    nodes, links, name = set(), set(), None
    for i in range(3):
        if i == 0 or S.flag(f'grow{i}'):
            k = len(links)
            p, q = (voc.vars[k], voc.vals[0]), (voc.vars[k + 1], voc.vals[0])
            b.add_relation({p, q}, voc.rels[0])
            nodes |= {p, q}
            links.add((frozenset({p, q}), voc.rels[0]))
        if S.flag(f'name{i}'):
            name = S.pick(f'new{i}', names)
            S.check(b.set_name(name) is b, 'renaming-gives-the-builder')
        g = b.build()
        S.check(view(g) == (nodes, links), 'sample-of-its-time', lambda: (nodes, links, g))
        S.check(g.name == (g.text_view() if name is None else name), 'name-given-last', lambda: (name, g.name))
        S.check(g.text_view() == voc.builder().build_from_edges(frozenset(links)).text_view(), 'text-does-not-depend-on-the-name', lambda: g.text_view())
        one = voc.builder().set_name(name).build_single_node(*p)
        S.check(one.name == (one.text_view() if name is None else name), 'single-node-name', lambda: name)


SCENARIOS = {'histories': histories, 'continued': continued, 'bad_steps': bad_steps, 'from_edges': from_edges,
             'from_edges_values': from_edges_values, 'parallel_edges': parallel_edges, 'connectivity': connectivity,
             'terminal_builds': terminal_builds}
numbers(SCENARIOS, 'from_edges', 'bad_steps', 'terminal_builds')
numbers(SCENARIOS, 'histories', 'parallel_edges')
SCENARIOS['renamed'] = renamed
SCENARIOS['large'] = large
SCENARIOS['large_edges'] = large_edges
