"""C06 subgraph order and similarity are the set relations of nodes and edges"""
from props.common import numbers, Vocab, view
from props import large as big

BOUNDS = {'quick': 'all pairs of samples over 3 variables (2 values, 2 relations), up to 3 links over 4 variables, pairs with arrows over 2 variables'
                   '; fixed samples of up to 7 variables',
          'thorough': '4 and 6 links over 4 variables'}
OUTSIDE = 'other larger samples; the similarity of two empty samples (undefined: the code divides by zero)'


def pair(S):
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', canon=True)
    b = voc.spec('b')
    ga, gb = voc.build(a), voc.build(b)
    ea, eb = a.elements(), b.elements()
    S.check(ga.is_subgraph(gb) == (ea <= eb), 'subgraph-iff-all-nodes-and-edges-contained', lambda: (a, b))
    S.check(gb.is_subgraph(ga) == (eb <= ea), 'subgraph-iff-all-nodes-and-edges-contained', lambda: (b, a))
    S.check((ga.is_subgraph(gb) and gb.is_subgraph(ga)) == (ga == gb), 'subgraph-antisymmetric', lambda: (a, b))
    S.check(ga.is_subgraph(ga), 'subgraph-reflexive', lambda: a)
    want = len(ea & eb) / len(ea | eb)
    s = ga.similarity(gb)
    S.eq(s, want, 'similarity-is-shared-over-all', lambda: (a, b, s, want))
    S.eq(gb.similarity(ga), s, 'similarity-symmetric', lambda: (a, b))
    S.check(0 <= s <= 1, 'similarity-range', lambda: (a, b, s))
    S.check((s == 1) == (ea == eb), 'similarity-one-iff-equal', lambda: (a, b, s))
    S.check((s == 0) == (not (ea & eb)), 'similarity-zero-iff-nothing-shared', lambda: (a, b, s))


def pair4(S):
    """four variables, one value, two relations"""
    voc = Vocab(S, 4, 1, 2)
    a = voc.spec('a', canon=True, max_edges=S.deep(3, 4))
    b = voc.spec('b', canon=True, max_edges=S.deep(3, 6))
    ga, gb = voc.build(a), voc.build(b)
    ea, eb = a.elements(), b.elements()
    S.check(ga.is_subgraph(gb) == (ea <= eb), 'subgraph-iff-all-nodes-and-edges-contained', lambda: (a, b))
    S.eq(ga.similarity(gb), len(ea & eb) / len(ea | eb), 'similarity-is-shared-over-all', lambda: (a, b))


def empty(S):
    """the empty sample is below every sample and similar to none"""
    voc = Vocab(S, 3, 2, 2)
    a = voc.spec('a', directed=True)
    ga = voc.build(a)
    e = voc.builder().build_empty()
    S.check(e.is_subgraph(ga) and not ga.is_subgraph(e) and e.is_subgraph(e), 'empty-below-every-sample', lambda: a)
    S.eq(e.similarity(ga), 0, 'empty-similar-to-none', lambda: a)
    S.eq(ga.similarity(e), 0, 'empty-similar-to-none', lambda: a)


def directed(S):
    voc = Vocab(S, 2, 2, 1)
    a = voc.spec('a', directed=True)
    b = voc.spec('b', directed=True)
    ga, gb = voc.build(a), voc.build(b)
    ea, eb = a.elements(), b.elements()
    S.check(ga.is_subgraph(gb) == (ea <= eb), 'subgraph-iff-all-nodes-and-edges-contained', lambda: (a, b))
    S.eq(ga.similarity(gb), len(ea & eb) / len(ea | eb), 'similarity-is-shared-over-all', lambda: (a, b))


def large(S):
    """samples of up to 7 variables: one is the other, changed in one place at most, or a part of it"""
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    b = big.changed(S, voc, a)
    k = S.choose('part', 3)
    if k:
        es = voc.ordered_edges(b)[:2 if k == 1 else len(b.edges) - 1]
        b = type(b)({v: x for v, x in b.nodes.items() if any(v in e for e, _ in es)}, dict(es))
    ga, gb = voc.build(a), voc.build(b)
    ea, eb = a.elements(), b.elements()
    S.check(ga.is_subgraph(gb) == (ea <= eb) and gb.is_subgraph(ga) == (eb <= ea), 'subgraph-iff-all-nodes-and-edges-contained', lambda: (a, b))
    S.eq(ga.similarity(gb), len(ea & eb) / len(ea | eb), 'similarity-is-shared-over-all', lambda: (a, b))
    S.eq(gb.similarity(ga), len(ea & eb) / len(ea | eb), 'similarity-is-shared-over-all', lambda: (a, b))


SCENARIOS = {'pair': pair, 'pair4': pair4, 'empty': empty, 'directed': directed}
numbers(SCENARIOS, 'pair', 'directed')
SCENARIOS['large'] = large
