"""C19 joining a graph on variables"""
import itertools

from props.common import numbers, Vocab, Spec, items_of, merge_counts, connected_shapes
from props.spaces import all_specs, outcomes, graph, total
from props.c16 import partition
from props.c18 import product

BOUNDS = {'quick': '1-3 outcomes out of 14 over 3 variables (nodes, links, paths, triangle, two values), joined on any one '
                   'variable, on any two and on all; 4 and 5 outcomes of fixed structure; unbounded positive counts'
                   '; 4 tables over 7 variables; two chains over 12 variables',
          'thorough': '4 outcomes out of 30'}
OUTSIDE = 'two groups of intersecting outcomes over the same variables (refused by grouping)'


def ref(ps, v):
    """outcomes without v stay; one outcome per group of intersecting outcomes with v, with matching values, is joined"""
    rest = [(s, c) for s, c in ps if v not in s.nodes]
    on = [(s, c) for s, c in ps if v in s.nodes]
    groups = [[on[i] for i in ids] for _, ids in partition(on)]
    return merge_counts(rest + (product(groups) if groups else []))


def key(ps):
    return {s.elements(): c for s, c in ps}


def check(S, j, alternatives, label):
    got = items_of(j.outcomes)
    fit = [w for w in alternatives if set(key(w)) == set(got)]
    S.check(fit and len(j.outcomes.items()) == len(got), label + '.outcomes', lambda: (got, alternatives))
    if not fit:
        return
    if len(alternatives) == 1:
        S.same_map(got, key(fit[0]), label + '.counts', lambda: (got, fit))
    else:
        S.check(any_of(S, [all_of(S, [S.same(got[k], c) for k, c in key(w).items()]) for w in fit]),
                label + '.counts', lambda: (got, fit))


def all_of(S, cs):
    r = True
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        r = c if r is True else (r & c)
    return r


def any_of(S, cs):
    r = False
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        r = c if r is False else (r | c)
    return r


def pool3(S, voc):
    x, v, r = voc.vals, voc.vars, voc.rels[0]

    def path(xs, *ix):
        return Spec({v[i]: x[k] for i, k in zip(ix, xs)}, {frozenset({v[a], v[b]}): r for a, b in zip(ix, ix[1:])})
    p = [path([0], 0), path([1], 0), path([0, 0], 0, 1), path([1, 0], 0, 1), path([0, 0], 0, 2), path([0, 1], 0, 2),
         path([0, 0], 1, 2), path([1, 0], 1, 2), path([0, 0, 0], 0, 1, 2), path([0], 1), path([0, 1], 0, 1),
         path([0, 0, 0], 1, 0, 2)]
    p.append(Spec({a: x[0] for a in v}, {frozenset(e): r for e in itertools.combinations(v, 2)}))
    p.append(Spec({}, {}))
    return p


def one(S):
    voc = Vocab(S, 3, 2, 1)
    ps = outcomes(S, voc, pool3(S, voc), 1 + S.choose('n', S.deep(3, 4)))
    v = S.pick('on', voc.vars)
    g = graph(voc, ps)
    j = g.joined_on_variables({v}, 'joined')
    check(S, j, [ref(ps, v)], 'joined-on-one-variable')
    S.check(j.name == 'joined', 'name-kept')
    S.same_map(items_of(g.outcomes), key(ps), 'graph-not-changed')


def two(S):
    voc = Vocab(S, 3, 2, 1)
    ps = outcomes(S, voc, pool3(S, voc), 3)
    a, b = S.pick('on', list(itertools.combinations(voc.vars, 2)))
    j = graph(voc, ps).joined_on_variables({a, b})
    check(S, j, [ref(ref(ps, a), b), ref(ref(ps, b), a)], 'joined-on-two-variables')


def none_and_all(S):
    voc = Vocab(S, 3, 2, 1)
    ps = outcomes(S, voc, pool3(S, voc), 2)
    g = graph(voc, ps)
    if S.flag('all'):
        j = g.joined_on_variables()
        vs = {v for s, _ in ps for v in s.nodes}
        alts = []
        for o in itertools.permutations([v for v in voc.vars if v in vs]):
            w = ps
            for v in o:
                w = ref(w, v)
            alts.append(w)
        check(S, j, alts, 'joined-on-all-variables')
    else:
        check(S, g.joined_on_variables(set()), [ps], 'joined-on-nothing')
        S.check(g.joined_on_variables(set()).name == g.name, 'name-inherited')


def tables(S):
    """two and three complete tables around the join variable"""
    from props.c18 import table
    k = S.choose('structure', 3)
    struct = [[((0, 1),), ((0, 2),)], [((0, 1),), ((0, 2),), ((0, 3),)], [(0,), ((0, 1),), ((0, 2),)]][k]
    voc = Vocab(S, 4, 2, 2)
    ts = [table(S, voc, f, i, voc.vals, lambda fi, xs: voc.rels[sum(xs) % 2]) for i, f in enumerate(struct)]
    ps = [p for t in ts for p in t]
    j = graph(voc, ps).joined_on_variables({voc.vars[0]})
    check(S, j, [merge_counts(product(ts))], 'joined-tables')


def large(S):
    """tables of 4 factors around the join variable, and outcomes elsewhere"""
    from props.c18 import table
    voc = Vocab(S, 7, 2, 2)
    k = S.choose('structure', 2)
    struct = [[((0, 1),), ((0, 2),), ((0, 3),), (0,)], [((0, 1), (1, 2)), ((0, 3),), ((0, 4),)]][k]
    ts = [table(S, voc, f, i, voc.vals, lambda fi, xs: voc.rels[(fi + sum(xs)) % 2]) for i, f in enumerate(struct)]
    rest = table(S, voc, ((5, 6),), 8, voc.vals, lambda fi, xs: voc.rels[0]) + table(S, voc, ((4, 5),) if k == 0 else (6,), 9, voc.vals,
                                                                                    lambda fi, xs: voc.rels[1])
    ps = [p for t in ts for p in t] + rest
    j = graph(voc, ps).joined_on_variables({voc.vars[0]})
    check(S, j, [merge_counts(product(ts) + rest)], 'joined-tables')


def many(S):
    """two chains of links over 12 variables, each with two outcomes at one end, joined on all variables or on all but two"""
    voc = Vocab(S, 12, 2, 2)
    v, x, r = voc.vars, voc.vals, voc.rels
    cut = S.pick('first-chain', [3, 6, 10])

    def link(i, a, b, k):
        return Spec({v[i]: x[a], v[i + 1]: x[b]}, {frozenset({v[i], v[i + 1]}): r[k]})
    fs = [[(link(i, 0, 0, 0), S.int('n%d' % i, 1))] for i in range(11) if i + 1 != cut]
    fs[0].append((link(0, 1, 0, 1), S.int('m0', 1)))
    fs[-1].append((link(10, 0, 1, 1), S.int('m1', 1)))
    ps = [p for f in fs for p in f]
    g = graph(voc, ps)
    if S.flag('all'):
        j = g.joined_on_variables()
    else:
        j = g.joined_on_variables(set(v) - {v[0], v[11]})
    check(S, j, [merge_counts(product(fs[:cut - 1]) + product(fs[cut - 1:]))], 'joined-on-many-variables')


SCENARIOS = {'one': one, 'two': two, 'none_and_all': none_and_all, 'tables': tables}
numbers(SCENARIOS, 'one', 'tables')
SCENARIOS['large'] = large
SCENARIOS['many'] = many
