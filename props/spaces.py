"""Symbolic relation graphs: outcomes with unbounded symbolic counts"""
import itertools

from props.common import Vocab, Spec, connected_shapes


# counts whose shares, as doubles, do not add up to 1 exactly (3 to 12 of them)
UNEVEN = {3: [14, 29, 12], 4: [23, 17, 1, 14], 5: [12, 2, 28, 12, 1], 6: [30, 21, 17, 20, 14, 5], 7: [24, 3, 19, 19, 16, 12, 1],
          8: [1, 9, 29, 3, 29, 2, 9, 28], 9: [22, 2, 7, 13, 4, 15, 12, 27, 5], 10: [17, 7, 2, 30, 8, 3, 10, 22, 5, 3],
          11: [8, 22, 28, 30, 14, 24, 2, 25, 30, 23, 14], 12: [30, 15, 24, 6, 19, 1, 19, 15, 9, 18, 28, 30]}


def all_specs(voc, nv, values=None, rels=None, directed=False, empty=False, shapes=None):
    """every sample over the first nv variables (concrete structure, symbolic names)"""
    vals = voc.vals[:values] if values else voc.vals
    rs = voc.rels[:rels] if rels else voc.rels
    out = [Spec({}, {})] if empty else []
    for nodes, es in shapes or connected_shapes(nv):
        for xs in itertools.product(vals, repeat=len(nodes)):
            cand = [list(rs) + ([voc.directed(voc.vars[a], voc.vars[b], rs[0])] if directed else [])
                    for a, b in es]
            for rr in itertools.product(*cand):
                out.append(Spec({voc.vars[i]: x for i, x in zip(nodes, xs)},
                                {frozenset({voc.vars[a], voc.vars[b]}): r for (a, b), r in zip(es, rr)}))
    return out


def outcomes(S, voc, pool, n, name='o', lo=1):
    """n different samples of the pool with arbitrary counts"""
    prev = -1
    out = []
    for i in range(n):
        left = len(pool) - (prev + 1) - (n - 1 - i)
        k = prev + 1 + S.choose(f'{name}{i}', left)
        prev = k
        out.append((pool[k], S.int(f'{name}.n{i}', lo)))
    return out


def graph(voc, pairs, name='g'):
    from scripts.relnet.relation_graph import RelationGraphBuilder
    b = RelationGraphBuilder(components_provider=voc.provider, name=name)
    for i, (s, c) in enumerate(pairs):
        b.add_outcome(voc.build(s), c)
    return b.build()


def total(pairs):
    t = 0
    for _, c in pairs:
        t = t + c
    return t


def count_where(pairs, p):
    t = 0
    for s, c in pairs:
        if p(s):
            t = t + c
    return t
