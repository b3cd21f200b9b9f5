"""Larger fixed structures (symbolic names and counts): what goes wrong only beyond a certain size shows here"""
from props.common import Vocab, Spec

NV, NX, NR = 7, 4, 3


def vocab(S):
    return Vocab(S, NV, NX, NR)


def spec(voc, xs, links):
    """xs: variable -> value index, links: (a, b) -> relation index, or (index, source, target) for an arrow"""
    v = voc.vars
    return Spec({v[i]: voc.vals[k % len(voc.vals)] for i, k in xs.items()},
                {frozenset({v[a], v[b]}): voc.rels[r % len(voc.rels)] if isinstance(r, int)
                 else voc.directed(v[r[1]], v[r[2]], voc.rels[r[0]]) for (a, b), r in links.items()})


def path(voc, ix, x=0, r=0):
    return spec(voc, {i: x + i for i in ix}, {(a, b): r + a for a, b in zip(ix, ix[1:])})


def shapes(voc):
    """chain, ring and star of 7, a full graph of 5, a tree, two rings in touch, arrows everywhere"""
    n = range(7)
    return [
        path(voc, n),
        spec(voc, {i: i for i in n}, {(i, (i + 1) % 7): i for i in n}),
        spec(voc, {i: 2 * i for i in n}, {(0, i): (1, 0, i) if i % 2 else i for i in n if i}),
        spec(voc, {i: 0 for i in range(5)}, {(a, b): a + b for a in range(5) for b in range(a)}),
        spec(voc, {i: i // 2 for i in n}, {(0, 1): 0, (0, 2): 1, (1, 3): 2, (1, 4): 0, (2, 5): 1, (2, 6): 2}),
        spec(voc, {i: 1 for i in n}, {(0, 1): 0, (1, 2): 0, (0, 2): 0, (2, 3): 1, (3, 4): 1, (4, 5): 1, (2, 5): 1, (5, 6): 2}),
        spec(voc, {i: 3 - i for i in range(6)}, {(i, i + 1): (i % 3, i, i + 1) if i % 2 else (i % 3, i + 1, i) for i in range(5)}),
    ]


def changed(S, voc, a):
    """a sample which differs in one place at most: nothing, a value, a relation, a link more or less (if it stays connected)"""
    from props.common import is_connected
    kind = S.choose('change', 5)
    nodes, edges = dict(a.nodes), dict(a.edges)
    if kind == 1:
        v = S.pick('where', list(nodes))
        nodes[v] = voc.vals[(voc.vals.index(nodes[v]) + 1) % len(voc.vals)]
    elif kind == 2:
        e = S.pick('where', list(edges))
        s, t = [v for v in voc.vars if v in e]
        old = edges[e]
        edges[e] = [r for r in list(voc.rels) + [voc.directed(s, t, voc.rels[0]), voc.directed(t, s, voc.rels[0])] if not (r == old)][
            S.choose('new', 4)]
    elif kind == 3:
        e = S.pick('where', list(edges))
        del edges[e]
        S.assume(is_connected(list(nodes), [tuple(x) for x in edges]))
    elif kind == 4:
        free = [frozenset({p, q}) for p in nodes for q in nodes if p is not q and frozenset({p, q}) not in edges]
        free = [x for i, x in enumerate(free) if x not in free[:i]]
        S.assume(free)
        edges[S.pick('where', free)] = voc.rels[2]
    return Spec(nodes, edges)


def many(S, voc, k=None):
    """a dozen outcomes of different shape and size, with counts"""
    ps = [path(voc, (0, 1)), path(voc, (0, 1), 1), path(voc, (0, 1), 2, 1), path(voc, (1, 2)), path(voc, (1, 2), 3),
          path(voc, (0, 1, 2)), path(voc, (0, 1, 2, 3)), path(voc, (0,)), path(voc, (0,), 1), path(voc, (0,), 2), path(voc, (4, 5)),
          path(voc, (4, 5), 0, 1)] + shapes(voc)[1:3]
    return [(s, S.int(f'm{i}', 1)) for i, s in enumerate(ps[:k])]
