"""C14 conditioning keeps exactly the outcomes which contain the evidence or say nothing about its variables"""
from props.common import numbers, Vocab, Spec, same_set, view, iso_shapes, is_spec
from props.spaces import all_specs, outcomes, graph, total
from props import large as big

BOUNDS = {'quick': '1-2 outcomes and evidence out of all samples over 2 variables with 2 relations and an arrow (evidence '
                   'may be empty), outcome and evidence over 3 variables; unbounded positive counts; two conditionings '
                   'in a row; 14 outcomes over 7 variables', 'thorough': '3 outcomes, all pairs over 3 variables with 2 values'}
OUTSIDE = 'other larger samples'


def selected(ps, e):
    return [(s, c) for s, c in ps if e.elements() <= s.elements() or not (e.variables() & s.variables())]


def check(S, voc, g, cg, ps, e):
    sel = selected(ps, e)
    same_set(S, cg.outcomes, sel, 'selected-outcomes')
    S.eq(cg.outcomes.length, total(sel), 'selected-total')
    S.check(is_spec(cg.evidence, e), 'evidence-kept', lambda: (e, cg.evidence))
    same_set(S, g.outcomes, ps, 'graph-not-changed')
    same_set(S, cg.relation_graph('back').outcomes, sel, 'converted-back')
    if sel:
        same_set(S, cg.builder().build().outcomes, sel, 'built-upon')
    return sel


def two(S):
    voc = Vocab(S, 2, 2, 2)
    pool = all_specs(voc, 2, empty=True, directed=True)
    ps = outcomes(S, voc, pool, 1 + S.choose('n', S.deep(2, 3)))
    e = pool[S.choose('e', len(pool))]
    g = graph(voc, ps)
    cg = g.conditional_graph(voc.build(e, name='evidence'), name='c')
    S.check(cg.name == 'c' and repr(cg) == 'c', 'name-kept')
    check(S, voc, g, cg, ps, e)
    # asked again
    name = S.pick('again', ['d', None])
    h = g.conditional_graph(voc.build(e, name='again'), name)
    S.check(h.name == repr(h) and (h.name == name or name is None and h.name != 'c'), 'name-kept-again', lambda: h.name)
    S.check(h.evidence.name == 'again' and cg.evidence.name == 'evidence', 'evidence-kept-again')
    if S.flag('other'):
        check(S, voc, g, h, ps, e)


def three(S):
    """one outcome and the evidence, both over three variables; and a second outcome elsewhere"""
    voc = Vocab(S, 4, 2, 2)
    e = voc.spec('e', canon=True, nv=3)
    s = voc.spec('s', nv=3, values=2, rels=S.deep(1, 2))
    n, m = S.int('n', 1), S.int('m', 1)
    other = Spec({voc.vars[3]: voc.vals[0]}, {})
    ps = [(s, n), (other, m)]
    g = graph(voc, ps)
    check(S, voc, g, g.conditional_graph(voc.build(e)), ps, e)


def chain(S):
    """conditioning twice selects twice"""
    voc = Vocab(S, 3, 2, 1)
    sh = [((0,), ()), ((0, 1), ((0, 1),)), ((2,), ()), ((0, 1, 2), ((0, 1), (1, 2)))]
    pool = all_specs(voc, 3, shapes=sh)
    ps = outcomes(S, voc, pool, 2)
    es = [pool[S.choose('e0', S.deep(4, 6))], pool[S.choose('e1', S.deep(8, len(pool)))]]
    g = graph(voc, ps)
    h = g.conditional_graph(voc.build(es[0])).relation_graph()
    cg = h.conditional_graph(voc.build(es[1]))
    same_set(S, cg.outcomes, selected(selected(ps, es[0]), es[1]), 'conditioned-twice')


def foreign(S):
    voc = Vocab(S, 2, 2, 1)
    s = Spec({voc.vars[0]: voc.vals[0]}, {})
    g = graph(voc, [(s, S.int('n', 1))])
    voc.new_provider()
    e = voc.spec('e')
    S.check(S.refused(S.attempt(g.conditional_graph, voc.build(e))), 'foreign-evidence-refused', lambda: e)


def large(S):
    """a dozen outcomes over 7 variables, evidence of up to 7"""
    voc = big.vocab(S)
    ps = big.many(S, voc)
    e = S.pick('e', [s for s, _ in ps] + big.shapes(voc) + [Spec({}, {}), big.path(voc, (6,)), big.path(voc, (5, 6)), big.path(voc, (2, 3))])
    g = graph(voc, ps)
    check(S, voc, g, g.conditional_graph(voc.build(e)), ps, e)


def nearly(S):
    """outcomes of up to 7 variables, evidence which is one of them, part of it, or differs from it in one place"""
    voc = big.vocab(S)
    ps = [(s, S.int(f'n{i}', 1)) for i, s in enumerate(big.shapes(voc))]
    e = big.changed(S, voc, S.pick('e', [ps[1][0], ps[5][0], ps[6][0]]))
    g = graph(voc, ps)
    check(S, voc, g, g.conditional_graph(voc.build(e)), ps, e)


SCENARIOS = {'two': two, 'three': three, 'chain': chain, 'foreign': foreign}
numbers(SCENARIOS, 'two', 'three')
SCENARIOS['large'] = large
SCENARIOS['nearly'] = nearly
