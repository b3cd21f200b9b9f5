"""C20 generating all possible outcomes is complete and free of duplicates"""
import itertools

from props.common import numbers, connected_shapes, view

BOUNDS = {'quick': '1-3 variables with 1-2 values each (every combination), 1-2 relations, symbolic names, two hash layouts; up to 9 values or relations for 1-3 variables',
          'thorough': '1-3 variables with up to 3 values, up to 3 relations, 4 variables with one relation, 4 hash layouts'}
OUTSIDE = 'larger vocabularies (the number of outcomes grows exponentially)'


def expected(vs, own, rels):
    out = set()
    for nodes, es in connected_shapes(len(vs)):
        for xs in itertools.product(*[own[vs[i]] for i in nodes]):
            at = {vs[i]: x for i, x in zip(nodes, xs)}
            for rr in itertools.product(rels, repeat=len(es)):
                out.add((frozenset(at.items()),
                         frozenset((frozenset({(vs[a], at[vs[a]]), (vs[b], at[vs[b]])}), r)
                                   for (a, b), r in zip(es, rr))))
    return out


def run(S, sizes, nrel, hashes):
    from scripts.relnet.relation_graph import RelationGraphBuilder
    S.hash_orders(hashes)
    vs = S.atoms('var', len(sizes))
    xs = S.atoms('val', max(sizes))
    rs = S.atoms('rel', nrel)
    own = {v: xs[:n] for v, n in zip(vs, sizes)}
    b = RelationGraphBuilder({v: set(x) for v, x in own.items()}, set(rs))
    r = b.generate_all_possible_outcomes()
    S.check(r is b, 'gives-the-builder')
    ss = b.build().outcomes
    got = []
    for s, c in ss.items():
        ns, es = view(s)
        got.append((frozenset(ns), frozenset(es)))
        S.check(c == 1, 'each-outcome-once', lambda: (s, c))
        S.check(len(s.nodes) == len(s.included_variables), 'one-value-per-variable', lambda: s)
    want = expected(vs, own, rs)
    S.check(len({s.name for s in ss.samples()}) == len(got), 'names-of-their-own')
    S.check(len(set(got)) == len(got), 'no-duplicates')
    S.check(set(got) <= want, 'only-possible-outcomes', lambda: set(got) - want)
    S.check(want <= set(got), 'every-possible-outcome', lambda: (len(want), len(got), list(want - set(got))[:3]))
    S.check(S.refused(S.attempt(b.generate_all_possible_outcomes)), 'refused-when-outcomes-are-there')


def small(S):
    n = 1 + S.choose('n', 2)
    sizes = [1 + S.choose(f'size{i}', 3) for i in range(n)]
    run(S, sizes, 1 + S.choose('rels', 3), S.deep(2, 4))


def three(S):
    sizes = [1 + S.choose(f'size{i}', S.deep(2, 3)) for i in range(3)]
    run(S, sizes, 1 + S.choose('rels', 2), 2)


def four(S):
    if S.tier == 'quick':
        run(S, [1, 1 + S.choose('size', 2), 1, 1], 1, 1)
    else:
        run(S, [1 + S.choose(f'size{i}', 2) for i in range(4)], 1, 2)


def wide(S):
    """many values or many relations, each variable with values of its own"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    sizes, nrel = S.pick('sizes', [([9], 1), ([7, 2], 1), ([2, 6], 2), ([1, 2], 9), ([2, 1, 1], 4), ([1, 3, 4], 1)])
    kind = S.choose('kind', 3)
    vs = [['u', 'v', 'w'], [0, 1, 2], [('a', 1), ('a', 2), 'a']][kind][:len(sizes)]
    own = {v: [[f'x{i}{k}' for k in range(n)], [None, 0, False, ''][:1] + list(range(1, n)), [(i, k) for k in range(n)]][kind]
           for i, (v, n) in enumerate(zip(vs, sizes))}
    rels = [[f'r{i}' for i in range(nrel)], list(range(nrel)), [None, ()][:nrel] + list(range(2, nrel))][kind]
    b = RelationGraphBuilder({v: set(x) for v, x in own.items()}, set(rels))
    ss = b.generate_all_possible_outcomes().build().outcomes
    want = expected(vs, own, rels)
    got = {(frozenset(ns), frozenset(es)) for ns, es in (view(s) for s in ss.samples())}
    S.check(got == want, 'every-possible-outcome', lambda: (len(want), len(got), list(want ^ got)[:3]))
    S.check(len(ss.samples()) == len(want) == ss.length and all(c == 1 for _, c in ss.items()), 'each-outcome-once')
    S.check(len({s.name for s in ss.samples()}) == len(want), 'names-of-their-own')


def not_empty(S):
    """a builder which has outcomes refuses, and keeps them"""
    from scripts.relnet.relation_graph import RelationGraphBuilder
    v, w = S.atoms('var', 2)
    x = S.atom('x', 'val')
    r = S.atom('r', 'rel')
    b = RelationGraphBuilder({v: {x}, w: {x}}, {r})
    n = S.int('n', 1)
    s = b.sample_builder().build_single_node(S.pick('v', [v, w]), x)
    b.add_outcome(s, n)
    S.check(S.refused(S.attempt(b.generate_all_possible_outcomes)), 'refused-when-outcomes-are-there')
    S.same_map(dict(b.build().outcomes.items()), {s: n}, 'outcomes-kept')


SCENARIOS = {'small': small, 'three': three, 'four': four, 'not_empty': not_empty, 'wide': wide}
numbers(SCENARIOS, 'small')
