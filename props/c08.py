"""C08 replacing values of a sample changes exactly those values"""
from props.common import numbers, Vocab, Spec, view, is_spec, iso_shapes
from props import large as big

BOUNDS = {'quick': '3 variables, 2 values (+1 undeclared), 2 relations, plain and directed; every replacement map'
                   '; fixed samples of 7 variables',
          'thorough': '4 variables, up to 4 links'}
OUTSIDE = 'other larger samples'


def replace(S):
    voc = Vocab(S, S.deep(3, 4), 2, 2)
    a = voc.spec('a', directed=True, values=1, max_edges=S.deep(3, 4), shapes=S.deep(iso_shapes(3), None))
    num = getattr(S, 'number_names', False)
    g = voc.build(a, name=None if num else S.pick('own_name', [None, 'own']))
    bad = S.atom('bad', 'val', distinct=True)
    stranger = S.atom('stranger', 'var', distinct=True)
    to = {}
    for i, v in enumerate(voc.vars):
        k = S.choose(f'to{i}', 4 if i == 0 else 3)
        if k:
            to[v] = [None, voc.vals[0], voc.vals[1], bad][k]
    if not num and S.flag('undeclared_variable'):
        to[stranger] = voc.vals[0]
    given = dict(to)
    name = None if num else S.pick('name', [None, 'new'])
    r = S.attempt(g.transform_with_replaced_values, given, name)
    ok = not any(v in a.nodes and x == bad for v, x in to.items())
    S.check(S.refused(r) != ok, 'refused-iff-undeclared-value', lambda: (a, to, r))
    S.check(is_spec(g, a), 'sample-not-changed', lambda: (a, g))
    S.check(given == to, 'replacement-map-not-changed')
    if not ok:
        return
    want = Spec({v: to.get(v, x) for v, x in a.nodes.items()}, a.edges)
    S.check(is_spec(r, want), 'exactly-the-given-values-replaced', lambda: (a, to, r))
    if want == a:
        S.check(r is g, 'nothing-replaced-is-the-sample-itself', lambda: (a, to))
    else:
        S.check(r.name == (name or r.text_view()), 'name-of-the-result', lambda: (r.name, name))
        S.check(r == voc.build(want), 'equal-to-a-built-one', lambda: (want, r))
        back = r.transform_with_replaced_values({v: a.nodes[v] for v in a.nodes})
        S.check(back == g, 'replacing-back-restores', lambda: (a, to, back))


def components_shared(S):
    """the result is made of the vocabulary's own components, so it can be joined and added like any other"""
    voc = Vocab(S, 3, 2, 1)
    a = voc.spec('a', values=1)
    g = voc.build(a)
    v = S.pick('v', list(a.nodes))
    r = g.transform_with_replaced_values({v: voc.vals[1]})
    S.check(r.is_compatible(voc.provider), 'same-vocabulary')
    for n in r.nodes:
        S.check(voc.provider.get_node(n.variable, n.value) is n, 'node-of-the-vocabulary', lambda: n)
    for e in r.edges:
        S.check(voc.provider.get_edge(e.endpoints, e.relation) is e, 'edge-of-the-vocabulary', lambda: e)
    S.check(view(r.builder().build()) == view(r), 'result-can-be-built-upon')


def large(S):
    """samples of up to 7 variables: none, one, some or all values replaced"""
    voc = big.vocab(S)
    a = S.pick('shape', big.shapes(voc))
    g = voc.build(a)
    which = S.choose('which', 10)
    vs = [voc.vars[which]] if which < 7 else [voc.vars, voc.vars[1:6], voc.vars[::2]][which - 7]
    by = S.choose('by', 3)
    to = {v: voc.vals[(i + by) % 4] for i, v in enumerate(vs)}
    r = g.transform_with_replaced_values(dict(to), 'new')
    want = Spec({v: to.get(v, x) for v, x in a.nodes.items()}, a.edges)
    S.check(is_spec(r, want) and r == voc.build(want) and is_spec(g, a), 'exactly-the-given-values-replaced', lambda: (a, to, r))
    S.check(r.transform_with_replaced_values(dict(a.nodes)) == g, 'replacing-back-restores', lambda: (a, to))


SCENARIOS = {'replace': replace, 'components_shared': components_shared}
numbers(SCENARIOS, 'replace')
SCENARIOS['large'] = large
