"""C11 probabilities of outcomes"""
from props.common import numbers, Vocab, view, Spec
from props.spaces import UNEVEN, all_specs, outcomes, graph, total

BOUNDS = {'quick': '1-3 different outcomes out of all 8 over 2 variables (and the empty sample), counts unbounded positive '
                   'integers; 12 and 40 outcomes of one shape with unbounded counts',
          'thorough': '1-4 outcomes, samples over 3 variables'}
OUTSIDE = 'rounding of floating point division in general (exact reals in the symbolic runs, real floats only in scenario rounded); total count 0'


def probabilities(S):
    n = 1 + S.choose('n', S.deep(3, 4))
    voc = Vocab(S, 2, 2, S.deep(1, 2))
    ps = outcomes(S, voc, all_specs(voc, 2, empty=True), n)
    ss = graph(voc, ps).outcomes
    check(S, voc, ss, ps)
    absent = voc.build(Spec({voc.vars[0]: voc.vals[0]}, {}))
    if all(not (s == Spec({voc.vars[0]: voc.vals[0]}, {})) for s, _ in ps):
        S.check(S.refused(S.attempt(ss.probability_of, absent)), 'unknown-sample-refused')


def check(S, voc, ss, ps):
    t = total(ps)
    got = ss.probabilities()
    S.check(len(got) == len(ps), 'one-probability-per-sample', lambda: (ps, got))
    p_sum = 0
    want = {voc.build(s): c for s, c in ps}
    S.check({s for s, _ in got} == set(want), 'one-probability-per-sample', lambda: (ps, got))
    for s, p in got:
        S.eq(p * t, want[s], 'probability-is-count-over-total', lambda: (ps, s, p))
        S.check(p > 0 and p <= 1, 'probability-range', lambda: (ps, s, p))
        p_sum = p_sum + p
        S.eq(ss.probability_of(s), p, 'probability-of-a-sample', lambda: (ps, s))
    S.eq(p_sum, 1, 'probabilities-sum-to-one', lambda: (ps, p_sum))


def many(S):
    """a set of many outcomes"""
    from scripts.relnet.sample_set import SampleSet
    voc = Vocab(S, 2, S.deep(3, 6), 1)
    pool = all_specs(voc, 2)
    ps = [(s, S.int(f'n{i}', 1)) for i, s in enumerate(pool)]
    ss = SampleSet(voc.provider, {voc.build(s): c for s, c in ps})
    t = total(ps)
    for s, c in ps:
        S.eq(ss.probability_of(voc.build(s)) * t, c, 'probability-is-count-over-total')
    S.eq(ss.length, t, 'length-is-the-total')


def rounded(S):
    """concrete counts: real floating point division, whose sum is not exactly 1"""
    from scripts.relnet.sample_set import SampleSet
    voc = Vocab(S, 2, 3, 1)
    pool = all_specs(voc, 2)
    n = 3 + S.choose('n', 10)
    k = S.pick('k', [1, 3, 7, 10 ** 17])
    how = S.choose('how', 3)
    ps = [(s, [k, k * (i + 1), k * UNEVEN[n][i]][how]) for i, s in enumerate(pool[:n])]
    ss = SampleSet(voc.provider, {voc.build(s): c for s, c in ps})
    r = S.attempt(ss.probabilities)
    S.check(not S.refused(r), 'probabilities-in-spite-of-rounding', lambda: (ps, r))
    want = {voc.build(s): c / total(ps) for s, c in ps}
    S.check(len(r) == n and all(abs(p - want[s]) < 1e-9 and ss.probability_of(s) == p for s, p in r),
            'probability-is-count-over-total', lambda: (ps, r))


def empty(S):
    from scripts.relnet.sample_set import SampleSet
    voc = Vocab(S, 2, 2, 1)
    e = SampleSet(voc.provider, {})
    S.check(S.refused(S.attempt(e.probabilities)), 'no-probabilities-of-nothing')
    S.check(S.refused(S.attempt(e.probability_of, voc.build(Spec({voc.vars[0]: voc.vals[0]}, {})))),
            'unknown-sample-refused')


SCENARIOS = {'probabilities': probabilities, 'many': many, 'rounded': rounded, 'empty': empty}
numbers(SCENARIOS, 'probabilities')
