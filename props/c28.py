"""C28 the examples and experiments build and compare exactly what they say"""
import io
import itertools
import sys
import types

from props.common import Spec, Vocab, items_of, merge_counts
from props.spaces import graph, outcomes, all_specs, total

BOUNDS = {'quick': 'up to 3 coin tosses out of all texts of the format; up to 3 variables of 1 to 3 values; tables of any real '
                   'numbers; networks of 2 and 3 variables and the student network of the experiment with any tables of '
                   'hundredths (64ths) in one or two places; the Markov ring of the experiment with any positive factors; '
                   'all sub-graphs of 2 and 3 nodes',
          'thorough': '4 tosses; all sub-graphs of 4 nodes'}
OUTSIDE = ('pgmpy itself (a stand-in with exact tables takes its place); outcomes_space_power and '
           'random_variables_distribution_for_all_outcomes (no input; the outcomes they generate: C17)')
ASSUMPTIONS = ['pgmpy is replaced by a stand-in which multiplies, marginalises and normalises tables exactly']


# ---------------------------------------------------------------- a stand-in for pgmpy

class Factor:
    """a table of numbers over a common divisor (one division per value, so nothing is rounded twice)"""

    def __init__(self, variables, cardinality, values, divisor=1):
        self.variables, self.cardinality = list(variables), [int(c) for c in cardinality]
        keys = list(itertools.product(*[range(c) for c in self.cardinality]))
        self.table = dict(values) if isinstance(values, dict) else dict(zip(keys, values))
        self.divisor = divisor

    def copy(self):
        return Factor(self.variables, self.cardinality, self.table, self.divisor)

    @property
    def values(self):
        def part(k):
            d = len(k)
            return self.table[k] / self.divisor if d == len(self.cardinality) else [part(k + (i,)) for i in range(self.cardinality[d])]
        return part(())

    def scope(self):
        return list(self.variables)

    def get_cardinality(self, variables):
        return {v: self.cardinality[self.variables.index(v)] for v in variables}

    def product(self, o, inplace=True):
        return self._keep(inplace, self * o)

    def get_value(self, **kw):
        return self.table[tuple(kw[v] for v in self.variables)] / self.divisor

    def set_value(self, value, **kw):
        self.table[tuple(kw[v] for v in self.variables)] = value * self.divisor

    def _keep(self, inplace, f):
        if not inplace:
            return f
        self.variables, self.cardinality, self.table, self.divisor = f.variables, f.cardinality, f.table, f.divisor

    def marginalize(self, variables, inplace=True):
        keep = [i for i, v in enumerate(self.variables) if v not in variables]
        t = {}
        for k, x in self.table.items():
            j = tuple(k[i] for i in keep)
            t[j] = t[j] + x if j in t else x
        return self._keep(inplace, Factor([self.variables[i] for i in keep], [self.cardinality[i] for i in keep], t, self.divisor))

    def normalize(self, inplace=True):
        return self._keep(inplace, Factor(self.variables, self.cardinality, self.table,
                                          total([(None, x) for x in self.table.values()])))

    def reduce(self, values, inplace=True):
        return self._keep(inplace, self.at(dict(values)))

    def at(self, evidence):
        keep = [i for i, v in enumerate(self.variables) if v not in evidence]
        return Factor([self.variables[i] for i in keep], [self.cardinality[i] for i in keep],
                      {tuple(k[i] for i in keep): x for k, x in self.table.items()
                       if all(k[i] == evidence[v] for i, v in enumerate(self.variables) if v in evidence)}, self.divisor)

    def __mul__(self, o):
        vs = self.variables + [v for v in o.variables if v not in self.variables]
        cs = self.cardinality + [c for v, c in zip(o.variables, o.cardinality) if v not in self.variables]
        t = {}
        for k in itertools.product(*[range(c) for c in cs]):
            kw = dict(zip(vs, k))
            t[k] = self.table[tuple(kw[v] for v in self.variables)] * o.table[tuple(kw[v] for v in o.variables)]
        return Factor(vs, cs, t, self.divisor * o.divisor)

    def __eq__(self, o):
        return self.variables == o.variables and all(self.table[k] / self.divisor == o.table[k] / o.divisor for k in self.table)

    def __repr__(self):
        return f'Factor({self.variables})'


class CPD:
    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None):
        self.variable, self.variable_card = variable, variable_card
        vs, cs = [variable] + list(evidence or []), [variable_card] + list(evidence_card or [])
        self.factor = Factor(vs, cs, [x for row in values for x in row])


class Bayes:
    def __init__(self, ebunch=None):
        self.edges, self.cpds = list(ebunch or []), []

    def add_cpds(self, *cpds):
        self.cpds += cpds

    def get_cpds(self, node=None):
        return self.cpds if node is None else [c for c in self.cpds if c.variable == node][0]

    def check_model(self):
        return True

    def add_edge(self, u, v):
        self.edges.append((u, v))

    def add_edges_from(self, ebunch):
        self.edges += ebunch

    def product(self):
        f = None
        for c in self.cpds:
            f = c.factor if f is None else f * c.factor
        return f


class Markov:
    def __init__(self, ebunch=None):
        self.nodes, self.edges, self.factors = [], list(ebunch or []), []

    def add_nodes_from(self, nodes):
        self.nodes += nodes

    def add_edges_from(self, ebunch):
        self.edges += ebunch

    def add_node(self, node):
        self.nodes.append(node)

    def add_edge(self, u, v):
        self.edges.append((u, v))

    def add_factors(self, *fs):
        self.factors += fs

    def get_factors(self):
        return self.factors

    def check_model(self):
        return True


class Elimination:
    def __init__(self, model):
        self.model = model

    def query(self, variables, evidence=None, *args, **kw):
        f = self.model.product().at(evidence or {})
        f.marginalize([v for v in f.variables if v not in variables])
        f.normalize()
        return f


def stand_in():
    m = {n: types.ModuleType(n) for n in ('pgmpy', 'pgmpy.inference', 'pgmpy.models', 'pgmpy.factors', 'pgmpy.factors.discrete')}
    m['pgmpy.inference'].VariableElimination = Elimination
    m['pgmpy.models'].BayesianNetwork = Bayes
    m['pgmpy.models'].MarkovNetwork = Markov
    m['pgmpy.factors.discrete'].TabularCPD = CPD
    m['pgmpy.factors.discrete'].DiscreteFactor = Factor
    sys.modules.update(m)


def load(name):
    import importlib
    stand_in()
    return importlib.import_module('scripts.' + name)


def has(S, m, *names):
    """helpers of the experiments looked at directly; nothing is said of them when they are named otherwise"""
    if all(hasattr(m, n) for n in names):
        return True
    for c in ('same', 'different'):
        S.cover(c)
    return False


def quietly(S, fn, *a):
    """the result (or refusal) and what was printed"""
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        return S.attempt(fn, *a), sys.stdout.getvalue()
    finally:
        sys.stdout = real


def run(S, fn, *a):
    r, _ = quietly(S, fn, *a)
    if S.refused(r):
        raise r.exc
    return r


# ---------------------------------------------------------------- the coin tosses

COINS = {'1¢': ('V1', '1', 1), '5¢': ('V2', '2', 5), '25¢': ('V3', '3', 25)}


def toss(S):
    """one outcome per text, counted; the relation tells whether the smaller coin came first"""
    m = load('examples.building_net_from_coin_toss')
    texts, want = [], []
    for i in range(1 + S.choose('tosses', S.deep(2, 3))):
        a, f = S.pick(f'coin{i}', list(COINS)), S.pick(f'face{i}', ['H', 'T'])
        first = (COINS[a][0], f.lower() + COINS[a][1])
        if S.flag(f'pair{i}'):
            b = S.pick(f'next{i}', [c for c in COINS if c != a])
            g = S.pick(f'nextface{i}', ['H', 'T'])
            second = (COINS[b][0], g.lower() + COINS[b][1])
            texts.append(f'{a} {f} then {b} {g}')
            want.append((Spec(dict([first, second]), {frozenset({first[0], second[0]}): 'r1' if COINS[a][2] < COINS[b][2] else 'r2'}), 1))
        else:
            texts.append(f'{a} {f}')
            want.append((Spec(dict([first]), {}), 1))
    g = m.build_relation_net(texts)
    S.same_map(items_of(g.outcomes), {s.elements(): c for s, c in merge_counts(want)}, 'outcomes-of-the-tosses', lambda: (texts, g.outcomes))
    S.check({v: set(x) for v, x in g.variables} == {v: {'h' + n, 't' + n} for v, n, _ in COINS.values()}
            and set(g.relations) == {'r1', 'r2'}, 'vocabulary-of-the-coins', lambda: (g.variables, g.relations))


def describe(S):
    """every outcome with its count and its share"""
    m = load('examples.building_net_from_coin_toss')
    voc = Vocab(S, 2, 2, 1)
    ps = [(s, 1 + S.choose(f'n{i}', 3)) for i, (s, _) in enumerate(outcomes(S, voc, all_specs(voc, 2), 1 + S.choose('k', 2)))]
    g = graph(voc, ps)
    _, out = quietly(S, m.describe_relation_net, g)
    lines = out.splitlines()
    want = sorted(f'    ω = {o}, c = {c}, P(ω) = {c / total(ps)}' for o, c in g.outcomes.items())
    S.check(len(lines) == 1 + len(ps) and sorted(lines[1:]) == want, 'outcomes-described', lambda: (out, want))


# ---------------------------------------------------------------- tables of the experiments

def tables(S):
    """combinations of values in order; a table by sets of values"""
    m = load('experiments.comparing_with_bayes_network')
    if not has(S, m, '_value_combination', '_value_map_from_cpd'):
        return
    vs = [(v, 1 + S.choose('card' + v, 3)) for v in 'PQR'[:1 + S.choose('parents', 3)]]
    want = [[f'{v}({j})' for (v, _), j in zip(vs, js)] for js in itertools.product(*[range(c) for _, c in vs])]
    S.check(m._value_combination(vs) == want, 'all-combinations-in-order', lambda: (vs, want))
    card = 1 + S.choose('card', 3)
    if S.flag('prior'):
        ps = [[S.real(f'p{i}', 0, 1)] for i in range(card)]
        par = S.pick('no parents', [(None, None), ([], [])])
        got = m._value_map_from_cpd('X', card, *par, ps)
        S.same_map(got, {frozenset({f'X({i})'}): p for i, (p,) in enumerate(ps)}, 'prior-by-value')
    else:
        ps = [[S.real(f'p{i}_{j}', 0, 1) for j in range(len(want))] for i in range(card)]
        got = m._value_map_from_cpd('X', card, [v for v, _ in vs], [c for _, c in vs], ps)
        S.same_map(got, {frozenset([f'X({i})'] + w): ps[i][j] for i in range(card) for j, w in enumerate(want)}, 'table-by-values')


def shares(S):
    """normalising keeps the proportions and gives the sum 1"""
    m = load(S.pick('which', ['experiments.comparing_with_bayes_network', 'experiments.comparing_with_markov_network']))
    if not has(S, m, '_normalize'):
        return
    xs = {f'k{i}': S.int(f'x{i}', 0) if S.flag('whole') else S.real(f'y{i}', 0) for i in range(1)}
    for i in range(1, 1 + S.choose('n', 4)):
        xs[f'k{i}'] = S.int(f'x{i}', 0)
    z = total([(None, x) for x in xs.values()])
    S.assume(z > 0)
    before = dict(xs)
    got = m._normalize(xs)
    S.check(set(got) == set(xs), 'same-keys')
    for k in xs:
        S.eq(got[k] * z, xs[k], 'in-proportion', lambda: (xs, got))
    S.same_map(xs, before, 'operand-kept')


def compared(S):
    """a comparison fails exactly when a key is missing or a number differs"""
    m = load('experiments.comparing_with_bayes_network')
    if not has(S, m, '_compare_values_map', '_compare_margin_map'):
        return
    keys = ['a', 'b', 'c'][:1 + S.choose('n', 3)]
    a = {frozenset({k, '1'}): S.real('x' + k, 0.001, 1) for k in keys}
    b = {}
    same = True
    for k in keys:
        kind = S.choose('kind' + k, 3)
        key = frozenset({k, '1'})
        if kind == 0:
            b[key] = a[key]
        elif kind == 1:
            b[key] = S.real('y' + k, 0.001, 1)
            d = a[key] - b[key]
            # apart from what rounding could hide
            S.assume((d > 1e-9) | (d < -1e-9))
            same = False
        else:
            same = False
            if S.flag('other' + k):
                b[frozenset({k, '2'})] = a[key]
    if S.flag('more'):
        b[frozenset({'z'})] = S.real('z', 0, 1)
        same = False
    if S.flag('swap'):
        a, b = b, a
    if S.flag('nested'):
        v = ['V', 'W'][:1 + S.choose('variables', 2)]
        strip = lambda d: {'-'.join(sorted(k)): x for k, x in d.items()}
        other = {'-': S.real('o', 0.001, 1)}
        x, y = {k: dict(other) for k in v}, {k: dict(other) for k in v}
        x[v[-1]], y[v[-1]] = strip(a), strip(b)
        if S.flag('lost'):
            (x if S.flag('left') else y).pop(S.pick('gone', v))
            same = False
        r, _ = quietly(S, m._compare_margin_map, x, y)
    else:
        r, _ = quietly(S, m._compare_values_map, a, b)
    S.check(S.refused(r) != same, 'difference-noticed', lambda: (a, b, same, r))
    S.check(same or isinstance(r.exc, AssertionError), 'reported-as-a-failure', lambda: r)
    S.cover('same' if same else 'different')


compared.covers = ('same', 'different')


# ---------------------------------------------------------------- the networks

FACTOR = 64


def column(S, name, card, fixed=None):
    """a probability distribution in 64ths as counts, none of them 0"""
    if fixed is not None:
        return fixed
    xs, left = [], FACTOR
    for i in range(card - 1):
        x = S.int(f'{name}{i}', 1, FACTOR - 1)
        xs.append(x)
        left = left - x
    S.assume(left > 0)
    return xs + [left]


def config(S, m, spec, free=(), only=None):
    """sets the network of the experiment; returns the tables as counts: variable -> (parents, {values: count})"""
    m.prop_factor = FACTOR
    m.net_config.clear()
    out = {}
    n = 0
    for var, (card, parents) in spec.items():
        cs = [spec[p][0] for p in parents]
        keys = list(itertools.product(*[range(c) for c in cs]))
        cols = []
        for k in keys:
            n += 1
            if var in free and (only is None or len(cols) == only):
                cols.append(column(S, f'{var}{n}_', card))
            else:
                base = [3 + (5 * n + 7 * i) % 16 for i in range(card - 1)]
                cols.append(base + [FACTOR - sum(base)])
        m.net_config[var] = (card, [[cols[j][i] / FACTOR for j in range(len(keys))] for i in range(card)],
                             list(parents) or None, cs or None)
        out[var] = (parents, {(i,) + k: cols[j][i] for i in range(card) for j, k in enumerate(keys)})
    return out


STUDENT = {'D': (2, ()), 'I': (2, ()), 'G': (3, ('I', 'D')), 'S': (2, ('I',)), 'L': (2, ('G',))}
NETS = [{'A': (2, ()), 'B': (2, ('A',))}, {'A': (3, ()), 'B': (2, ('A',))}, {'A': (2, ()), 'B': (2, ('A',)), 'C': (2, ('B',))},
        {'A': (2, ()), 'B': (3, ()), 'C': (2, ('B', 'A'))}, {'A': (2, ()), 'B': (2, ('A',)), 'C': (2, ('A',))}]


def rows(voc_of, var, parents, table):
    from scripts.relnet.graph_components import DirectedRelation
    for k, c in table.items():
        vs = (var,) + parents
        yield (Spec({v: f'{v}({i})' for v, i in zip(vs, k)},
                    {frozenset({p, var}): DirectedRelation(p, var, 'r') for p in parents}), c)


def network(S):
    """the relation graph of a network: one outcome per entry of its tables, its count the entry times the factor"""
    m = load('experiments.comparing_with_bayes_network')
    spec = S.pick('net', NETS + [STUDENT])
    free = [v for v in spec if v != 'G']
    tabs = config(S, m, spec, free)
    g = run(S, m.make_relation_graph)
    want = [r for v, (ps, t) in tabs.items() for r in rows(None, v, ps, t)]
    S.same_map(items_of(g.outcomes), {s.elements(): c for s, c in want}, 'a-row-per-entry')
    S.check({v: set(x) for v, x in g.variables} == {v: {f'{v}({i})' for i in range(c)} for v, (c, _) in spec.items()}
            and set(g.relations) == {'r'}, 'vocabulary-of-the-network', lambda: g.variables)
    # the network for the other library has the same tables
    if spec is STUDENT:
        b = run(S, m.make_bayes_network)
        S.check(sorted(b.edges) == sorted((p, v) for v, (_, ps) in spec.items() for p in ps), 'edges-of-the-network', lambda: b.edges)
        S.check([c.factor.variables for c in b.cpds] == [[v] + list(ps) for v, (_, ps) in spec.items()], 'a-table-per-variable')
        for c in b.cpds:
            for k, x in c.factor.table.items():
                S.eq(x * FACTOR, tabs[c.factor.variables[0]][1][k], 'same-entries')


def uneven(S):
    """an entry which the factor does not make whole is refused"""
    m = load('experiments.comparing_with_bayes_network')
    config(S, m, NETS[0])
    x = (S.int('whole', 0, FACTOR - 1) + S.real('part', 0.001, 0.999)) / FACTOR
    v = S.pick('v', ['A', 'B'])
    c = m.net_config[v]
    c[1][0][0] = x
    r, _ = quietly(S, m.make_relation_graph)
    S.check(S.refused(r) and isinstance(r.exc, AssertionError), 'refused', lambda: (x, r))


def bayes_of(m, tabs, exclude=None):
    b = Bayes()
    b.add_cpds(*[CPD(v, m.net_config[v][0], m.net_config[v][1], m.net_config[v][2], m.net_config[v][3]) for v in tabs])
    return b


def joint(S):
    """the comparison of the joint probabilities succeeds for the network itself, and fails for any other network"""
    m = load('experiments.comparing_with_bayes_network')
    spec = NETS[S.choose('net', len(NETS))]
    tabs = config(S, m, spec, [S.pick('free', sorted(spec))], 0)
    g = run(S, m.make_relation_graph)
    b = bayes_of(m, tabs)
    other = S.flag('other')
    if other:
        f = b.cpds[S.choose('cpd', len(b.cpds))].factor
        keys = [k for k in f.table if k[0] < 2]
        k = keys[S.choose('column', len(keys))]
        d = S.pick('shift', [1, 2])
        l = (1 - k[0],) + k[1:]
        S.assume(f.table[k] * FACTOR > d)
        f.table[k] = f.table[k] - d / FACTOR
        f.table[l] = f.table[l] + d / FACTOR
    r, _ = quietly(S, m.comparing_joint_probability, b, g)
    S.check(S.refused(r) == other, 'agrees-iff-the-same-network', lambda: (tabs, other, r))
    S.check(not other or isinstance(r.exc, AssertionError), 'reported-as-a-failure', lambda: r)
    S.cover('other' if other else 'same')


joint.covers = ('same', 'other')


def inference(S):
    """so does the comparison of the probabilities after one and two observations"""
    m = load('experiments.comparing_with_bayes_network')
    free = S.pick('free', ['D', 'S', 'L'])
    tabs = config(S, m, STUDENT, [free])
    g = run(S, m.make_relation_graph)
    b = bayes_of(m, tabs)
    other = S.flag('other')
    if other:
        # what is not observed
        v = S.pick('cpd', ['D', 'S', 'L'])
        f = [c.factor for c in b.cpds if c.factor.variables[0] == v][0]
        k = S.pick('column', [k for k in f.table if k[0] == 0 and k[1:] == (0,) * (len(k) - 1)])
        d = S.pick('shift', [1, 2])
        l = (1,) + k[1:]
        S.assume(f.table[k] * FACTOR > d)
        f.table[k] = f.table[k] - d / FACTOR
        f.table[l] = f.table[l] + d / FACTOR
    r, _ = quietly(S, m.comparing_inference, b, g)
    S.check(S.refused(r) == other, 'agrees-iff-the-same-network', lambda: (tabs, other, r))
    S.cover('other' if other else 'same')


inference.covers = ('same', 'other')


def observed(S):
    """the probabilities after any observations, on both sides, are those of the product of the tables"""
    m = load('experiments.comparing_with_bayes_network')
    if not has(S, m, '_run_inference_on'):
        return
    n = S.choose('net', len(NETS) + 1)
    spec = (NETS + [STUDENT])[n]
    big = spec is STUDENT
    free = [S.pick('free', ['D', 'L'] if big else sorted(spec))]
    tabs = config(S, m, spec, free)
    g = run(S, m.make_relation_graph)
    b = bayes_of(m, tabs)
    if big:
        ev = S.pick('many', [['L', 'I', 'S'], ['S', 'G', 'I'], ['D', 'I', 'L', 'S']])
    else:
        ev = [v for v in S.perm('order', sorted(spec))][:1 + S.choose('more', len(spec) - 1)]
    left, right = run(S, m._run_inference_on, ev, b, g)
    S.check(set(left) == set(spec) - set(ev) and set(right) == set(spec), 'a-marginal-of-each-variable', lambda: (left, right))
    js = []
    vs = sorted(spec)
    for k in itertools.product(*[range(spec[v][0]) for v in vs]):
        at = dict(zip(vs, k))
        if all(at[v] == 0 for v in ev):
            c = 1
            for v, (ps, t) in tabs.items():
                c = c * t[(at[v],) + tuple(at[p] for p in ps)]
            js.append((at, c))
    z = total(js)
    for v in set(spec) - set(ev):
        for i in range(spec[v][0]):
            t = total([(None, 0)] + [(a, c) for a, c in js if a[v] == i])
            for side, d in (('table', left), ('graph', right)):
                S.eq(d[v][f'{v}({i})'] * z, t, side + '-posterior', lambda: (v, i, d))


def separation(S):
    """the experiment on separation fails exactly when the dependent variable does not depend"""
    m = load('experiments.comparing_with_bayes_network')
    tabs = config(S, m, STUDENT, ['S'])
    g = run(S, m.make_relation_graph)
    r, _ = quietly(S, m.comparing_d_separation, g)
    t = tabs['S'][1]
    dep = bool(t[0, 0] != t[0, 1])
    S.check(S.refused(r) != dep, 'separated-and-dependent', lambda: (tabs['S'], r))
    S.check(dep or isinstance(r.exc, AssertionError), 'reported-as-a-failure', lambda: r)


# ---------------------------------------------------------------- the Markov network

def ring(S):
    """the relation graph of the factors; its probabilities are the normalised product, on both sides; any differing
    factor is noticed"""
    m = load('experiments.comparing_with_markov_network')
    free = S.choose('free', 4)
    m.edges[:] = [(e, [S.int(f'f{i}{j}', 1) if i == free else x for j, x in enumerate(xs)]) for i, (e, xs) in enumerate(m.edges)]
    vals = [(e, list(xs)) for e, xs in m.edges]
    g = run(S, m.make_relation_graph)
    want = [(Spec({v: f'{v}({i})' for v, i in zip(e, k)}, {frozenset(e): 'r'}), x)
            for e, xs in vals for k, x in zip(itertools.product((0, 1), (0, 1)), xs)]
    S.same_map(items_of(g.outcomes), {s.elements(): c for s, c in want}, 'an-outcome-per-entry')
    mn = run(S, m.make_markov_network)
    S.check([(f.variables, f.cardinality) for f in mn.factors] == [(e, [2, 2]) for e, _ in vals] and mn.nodes == m.nodes
            and [list(e) for e in mn.edges] == [e for e, _ in vals], 'factors-of-the-network')
    for f, (e, xs) in zip(mn.factors, vals):
        for k, x in zip(itertools.product((0, 1), (0, 1)), xs):
            S.eq(f.table[k], x, 'same-entries')

    def product(keep):
        return {k: _product(vals, k) for k in itertools.product((0, 1), repeat=4) if keep(k)}
    js = product(lambda k: True)
    z = total([(None, x) for x in js.values()])
    if not has(S, m, '_get_relation_graph_prop', '_get_markov_prop', '_format_prop'):
        return
    j = g.make_joined()
    got = m._get_relation_graph_prop(j)
    f = mn.factors[0] * mn.factors[1] * mn.factors[2] * mn.factors[3]
    other = m._get_markov_prop(f)
    for p, side in ((got, 'graph'), (other, 'table')):
        S.check(set(p) == set(js), side + '-all-combinations', lambda: p)
        for k in set(p) & set(js):
            S.eq(p[k] * z, js[k], side + '-probability', lambda: (k, p[k]))
    S.eq(total([(None, x) for x in f.table.values()]), z, 'operand-kept')
    # after an observation
    ev = S.pick('observe', ['A', 'B', 'C', 'D'])
    at = 'ABCD'.index(ev)
    c = g.conditional_graph(g.sample_builder().build_single_node(ev, f'{ev}(0)')).relation_graph().make_joined()
    js = product(lambda k: k[at] == 0)
    z = total([(None, x) for x in js.values()])
    p = m._get_relation_graph_prop(c.relation_graph())
    S.check(set(p) == set(js), 'observed-combinations', lambda: p)
    for k in set(p) & set(js):
        S.eq(p[k] * z, js[k], 'observed-probability', lambda: (k, p[k]))
    S.check(m._format_prop(p) == sorted(f'P(A_{k[0]}, B_{k[1]}, C_{k[2]}, D_{k[3]}) = {x}' for k, x in p.items()) if not S.symbolic
            else len(m._format_prop(p)) == len(p), 'listed')


def _product(vals, k):
    at = dict(zip('ABCD', k))
    x = 1
    for (a, b), xs in vals:
        x = x * xs[2 * at[a] + at[b]]
    return x


def markov(S):
    """the experiments on the joint probabilities and on the observation succeed for the network itself (powers of two), and
    fail for another one"""
    m = load('experiments.comparing_with_markov_network')
    i, k = S.choose('factor', 4), S.choose('entry', 4)
    m.edges[:] = [(e, [S.pick('x', [1, 2, 4, 64]) if (i, k) == (a, b) else x for b, x in enumerate(xs)]) for a, (e, xs) in enumerate(m.edges)]
    g = run(S, m.make_relation_graph)
    mn = run(S, m.make_markov_network)
    other = S.flag('other')
    if other:
        f = mn.factors[S.choose('f', 4)]
        key = S.pick('at', sorted(f.table))
        f.table[key] = f.table[key] + S.int('more', 1)
        # what is observed away makes no difference
        lost = f.variables.index('A') if 'A' in f.variables else None
        seen = lost is None or key[lost] == 0
    r, _ = quietly(S, m.comparing_variable_joint_probability, mn, g)
    S.check(S.refused(r) == other, 'agrees-iff-the-same-network', lambda: (other, r))
    r, _ = quietly(S, m.comparing_inference, mn, g)
    S.check(S.refused(r) == (other and seen), 'observed-agrees-iff-the-same-network', lambda: (other, r))
    if not other:
        for fn, x in ((m.markov_separation, mn), (m.relation_graph_separation, g)):
            r, _ = quietly(S, fn, x)
            S.check(not S.refused(r), 'separated', lambda: (fn, r))


# ---------------------------------------------------------------- all sub-graphs

def subgraphs(S):
    """one picture for each node alone and for each choice of edges, with exactly the nodes they touch"""
    m = load('playaround.number_of_subgraphs')
    n = 2 + S.choose('n', S.deep(2, 3))
    net = run(S, m.make_all_sub_graphs, n)
    ids = [x for x, _, _ in net.nodes]
    S.check(len(set(ids)) == len(ids), 'no-node-twice')
    parts = {}
    for x in ids:
        v, i = x[1:].split('_')
        parts.setdefault(i, (set(), set()))[0].add(int(v))
    for a, b, k in net.edges:
        (s, i), (t, j) = a[1:].split('_'), b[1:].split('_')
        S.check(i == j, 'edges-stay-inside')
        s, t = int(s), int(t)
        kind = {'AB': '>', 'BA': '<'}[k['title']]
        parts[i][1].add((min(s, t), max(s, t), kind if s < t else {'>': '<', '<': '>'}[kind]))
    alone = parts.pop('0')
    S.check(alone == (set(range(1, n + 1)), set()), 'each-node-alone', lambda: alone)
    pairs = list(itertools.combinations(range(1, n + 1), 2))
    want = set()
    for ks in itertools.product([None, '>', '<'], repeat=len(pairs)):
        es = frozenset((a, b, k) for (a, b), k in zip(pairs, ks) if k)
        if es:
            want.add((frozenset(x for e in es for x in e[:2]), es))
    got = [(frozenset(a), frozenset(b)) for a, b in parts.values()]
    S.check(len(got) == len(want) and set(got) == want, 'every-choice-of-edges-once', lambda: (len(got), len(want)))


SCENARIOS = {'toss': toss, 'describe': describe, 'tables': tables, 'shares': shares, 'compared': compared, 'network': network,
             'uneven': uneven, 'joint': joint, 'inference': inference, 'observed': observed, 'separation': separation,
             'ring': ring, 'markov': markov, 'subgraphs': subgraphs}
