"""Shared vocabulary, symbolic samples and the reference view of samples used as oracle"""
import itertools


def connected_shapes(n, max_nodes=None, min_nodes=1, max_edges=None):
    """all connected graphs over sub-sets of n labelled variables: (nodes, edges)"""
    key = (n, max_nodes, min_nodes, max_edges)
    if key in _SHAPES:
        return _SHAPES[key]
    out = []
    for k in range(min_nodes, (max_nodes or n) + 1):
        for nodes in itertools.combinations(range(n), k):
            pairs = list(itertools.combinations(nodes, 2))
            for m in range(k - 1, len(pairs) + 1):
                if max_edges is not None and m > max_edges:
                    break
                for es in itertools.combinations(pairs, m):
                    if is_connected(nodes, es):
                        out.append((nodes, es))
    _SHAPES[key] = out
    return out


_SHAPES = {}


def iso_shapes(n, min_nodes=1, max_edges=None):
    """one connected graph per isomorphism class, on the first variables (names carry no meaning)"""
    key = ('iso', n, min_nodes, max_edges)
    if key not in _SHAPES:
        out, seen = [], set()
        for nodes, es in connected_shapes(n, None, min_nodes, max_edges):
            if nodes != tuple(range(len(nodes))):
                continue
            c = min(tuple(sorted(tuple(sorted((p[a], p[b]))) for a, b in es))
                    for p in itertools.permutations(range(len(nodes))))
            if (len(nodes), c) not in seen:
                seen.add((len(nodes), c))
                out.append((nodes, es))
        _SHAPES[key] = out
    return _SHAPES[key]


def is_connected(nodes, pairs):
    nodes = list(nodes)
    if not nodes:
        return True
    seen, todo = {nodes[0]}, [nodes[0]]
    while todo:
        x = todo.pop()
        for a, b in pairs:
            for p, q in ((a, b), (b, a)):
                if p == x and q not in seen:
                    seen.add(q)
                    todo.append(q)
    return len(seen) == len(set(nodes))


class Spec:
    """Reference value of a sample: variable -> value, {var, var} -> relation"""

    def __init__(self, nodes, edges):
        self.nodes = dict(nodes)
        self.edges = dict(edges)

    def node_set(self):
        return {(v, x) for v, x in self.nodes.items()}

    def edge_set(self):
        return {(frozenset((v, self.nodes[v]) for v in ends), r) for ends, r in self.edges.items()}

    def elements(self):
        return frozenset(self.node_set()) | frozenset(self.edge_set())

    def __eq__(self, o):
        return self.elements() == o.elements()

    def __hash__(self):
        return hash(self.elements())

    def __repr__(self):
        return f'Spec({self.nodes}, {[(sorted(map(str, k)), r) for k, r in self.edges.items()]})'

    def variables(self):
        return set(self.nodes)


def view(sample):
    """The same two sets, read from a real sample"""
    ns = {(n.variable, n.value) for n in sample.nodes}
    es = {(frozenset((n.variable, n.value) for n in e.endpoints), e.relation) for e in sample.edges}
    return ns, es


def is_spec(sample, spec):
    ns, es = view(sample)
    return ns == spec.node_set() and es == spec.edge_set() and len(sample.nodes) == len(ns) \
        and len(sample.edges) == len(es)


def with_numbers(fn, twins=True):
    """the same scenario over a vocabulary of numbers (0 included) and None as a variable, a value and a relation instead of texts;
    a variable, a value and a relation may be the same number, and with twins two of them have the same text (0 and '0')"""
    def run(S):
        S.number_names, S.twin_texts = True, twins
        fn(S)
    run.__name__ = fn.__name__ + '_numbers'
    return run


def numbers(scenarios, *names, twins=True):
    for n in names:
        scenarios[n + '_numbers'] = with_numbers(scenarios[n], twins)


class Vocab:
    def __init__(self, S, nv, nval=2, nrel=2, var='var', val='val', rel='rel'):
        self.S = S
        if getattr(S, 'number_names', False):
            self.vars, self.vals, self.rels = list(range(nv)), list(range(nval)), list(range(nrel))
            self.vars[1:2] = [None][:nv - 1]
            self.vals[1:2] = [None][:nval - 1]
            self.rels[1:2] = [None][:nrel - 1]
            for names, n in ((self.vars, nv), (self.vals, nval), (self.rels, nrel)) if getattr(S, 'twin_texts', False) else ():
                names[2:3] = ['0'][:max(n - 2, 0)]
        else:
            self.vars = S.atoms(var, nv)
            self.vals = S.atoms(val, nval)
            self.rels = S.atoms(rel, nrel)
        self.new_provider()

    def new_provider(self):
        from scripts.relnet.graph_components import BuilderComponentsProvider
        self.provider = BuilderComponentsProvider({v: set(self.vals) for v in self.vars}, set(self.rels))
        return self.provider

    def builder(self):
        from scripts.relnet.sample_graph import SampleGraphBuilder
        return SampleGraphBuilder(self.provider)

    def directed(self, s, t, r):
        from scripts.relnet.graph_components import DirectedRelation
        return DirectedRelation(s, t, r)

    # ------------------------------------------------------------------ symbolic samples
    def spec(self, name, shapes=None, canon=False, values=None, rels=None, directed=False, max_nodes=None,
             max_edges=None, min_nodes=1, nv=None):
        """An arbitrary connected sample over (a part of) the vocabulary.
        canon: values and relations up to renaming (all values the first one, relations in order of appearance)"""
        S = self.S
        shapes = shapes or connected_shapes(nv or len(self.vars), max_nodes, min_nodes, max_edges)
        nodes_i, edges_i = shapes[S.choose(name + '.shape', len(shapes))]
        nodes = {}
        for i in nodes_i:
            nodes[self.vars[i]] = self.vals[0] if canon else self.vals[
                S.choose(f'{name}.v{i}', min(values or 99, len(self.vals)))]
        edges = {}
        used = 0
        nr = min(rels or 99, len(self.rels))
        for a, b in edges_i:
            if canon:
                k = S.choose(f'{name}.r{a}{b}', min(nr, used + 1))
                used = max(used, k + 1)
                r = self.rels[k]
            elif directed:
                k = S.choose(f'{name}.r{a}{b}', nr + 2)
                r = self.rels[k] if k < nr else self.directed(
                    self.vars[a if k == nr else b], self.vars[b if k == nr else a], self.rels[0])
            else:
                r = self.rels[S.choose(f'{name}.r{a}{b}', nr)]
            edges[frozenset({self.vars[a], self.vars[b]})] = r
        return Spec(nodes, edges)

    # ------------------------------------------------------------------ building through the public interface
    def ordered_edges(self, spec):
        """edges in an order which keeps the growing sample connected"""
        rest = list(spec.edges.items())
        seen = set()
        out = []
        while rest:
            for i, (ends, r) in enumerate(rest):
                if not seen or not seen.isdisjoint(ends):
                    out.append((ends, r))
                    seen |= ends
                    del rest[i]
                    break
            else:
                raise RuntimeError('spec is not connected')
        return out

    def build(self, spec, name=None, provider=None):
        from scripts.relnet.sample_graph import SampleGraphBuilder
        b = SampleGraphBuilder(provider or self.provider)
        if name is not None:
            b.set_name(name)
        if not spec.nodes:
            return b.build_empty()
        if not spec.edges:
            (v, x), = spec.nodes.items()
            return b.build_single_node(v, x)
        for ends, r in self.ordered_edges(spec):
            b.add_relation({(v, spec.nodes[v]) for v in ends}, r)
        return b.build()

    def edge_tuples(self, spec):
        return frozenset((frozenset((v, spec.nodes[v]) for v in ends), r) for ends, r in spec.edges.items())


def merge_counts(pairs):
    """[(spec, count)] -> list of (spec, total) with equal specs added up, in order"""
    out = []
    for s, c in pairs:
        for i, (t, d) in enumerate(out):
            if t == s:
                out[i] = (t, d + c)
                break
        else:
            out.append((s, c))
    return out


def items_of(sample_set):
    """Dict element-set -> count of a real sample set"""
    out = {}
    for s, c in sample_set.items():
        ns, es = view(s)
        k = frozenset(ns) | frozenset(es)
        out[k] = c
    return out


def want_items(pairs):
    return {s.elements(): c for s, c in merge_counts(pairs)}


def same_set(S, sample_set, pairs, label):
    """the sample set holds exactly the given (spec, count)s"""
    got, want = items_of(sample_set), want_items(pairs)
    S.check(len(sample_set.items()) == len(got), label + '.no-duplicates', lambda: sample_set.items())
    S.same_map(got, want, label)
