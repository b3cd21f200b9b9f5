"""D38 drawing from distributions: the random number decides, by the cumulative weights"""
from props.board import fake_random, truth

BOUNDS = {'quick': 'distributions over up to 4 values with any weights >= 0 (with 4 values summing to 1, else any sum > 0), any random number in (0, 1); 8 and 30 values with one of any weight, 4 draws at once',
          'thorough': 'up to 5 values (with 4 or more summing to 1)'}
OUTSIDE = 'random numbers within 2^-20 of an interval end; floating point rounding of the sums'

EPS = 1 / 1048576


def weights(S, n, normal=None):
    w = [S.real(f'w{i}', 0) for i in range(n)]
    tot = sum(w)
    if normal if normal is not None else S.flag('normal'):
        S.assume(tot == 1)
    else:
        S.assume(tot > 0)
    return w, tot


def where(S, w, tot, t):
    """the index of the interval which contains t = r * tot; ends are left out"""
    acc = 0
    out = None
    for i, x in enumerate(w):
        S.assume((t - acc > tot * EPS) | (t - acc < -tot * EPS))
        acc = acc + x
        if out is None and truth(t < acc):
            out = i
    return out


def number(S, k=0):
    return S.real(f'r{k}', 0, 1, lo_open=True, hi_open=True)


def one(S):
    import util
    n = 1 + S.choose('n', S.deep(4, 5))
    how = S.choose('how', 5)
    w, tot = weights(S, n, True if how == 4 or n > 3 else None)
    t = S.real('t', 0, lo_open=True)
    S.assume(t < tot)
    r = t / tot
    want = where(S, w, tot, t)
    fake_random(S, [r])
    vals = ['East', 'North', 'South', 'Stop', 'West'][:n]
    if how == 0:
        got = util.sample(list(w), list(vals))
    elif how == 4:
        got = util.chooseFromDistribution([(p, v) for p, v in zip(w, vals)])
    else:
        # the order of a counter is that of its sorted keys, however it was filled
        c = util.Counter() if how != 3 else {}
        for i in (range(n) if S.flag('forward') else reversed(range(n))):
            c[vals[i]] = w[i]
        got = {1: util.sample, 2: util.sampleFromCounter, 3: util.chooseFromDistribution}[how](c)
        S.check(len(c) == n and all(truth(c[vals[i]] == w[i]) for i in range(n)), 'distribution-unchanged')
    S.check(got == vals[want], 'interval-of-the-random-number', lambda: (how, w, r, got, vals[want]))


def many(S):
    import util
    n = 1 + S.choose('n', 3)
    k = 1 + S.choose('k', 2)
    w, tot = weights(S, n, True if k == 2 else None)
    ts = [S.real(f't{i}', 0, lo_open=True) for i in range(k)]
    for t in ts:
        S.assume(t < tot)
    rs = [t / tot for t in ts]
    want = sorted(where(S, w, tot, t) for t in ts)
    fake_random(S, list(rs))
    vals = ['a', 'b', 'c'][:n]
    got = util.nSample(list(w), list(vals), len(rs))
    S.check(sorted(got) == [vals[i] for i in want], 'interval-of-the-random-number', lambda: (w, rs, got))


def probability(S):
    import util
    n = 1 + S.choose('n', 3)
    w = [S.real(f'w{i}', 0) for i in range(n)]
    vals = [S.atom(f'v{i}', 'val') for i in range(n)]
    q = S.atom('q', 'val')
    want = 0
    for x, v in zip(w, vals):
        if v == q:
            want = want + x
    S.eq(util.getProbability(q, w, vals), want, 'probability', lambda: (q, vals, w))
    if S.flag('certain'):
        p, r = S.pick('sure', [0, 1]), S.real('r', 0, 1, hi_open=True)
        fake_random(S, [r])
        S.check(truth(util.flipCoin(p)) == (p == 1), 'never-or-always', lambda: (p, r))
        return
    p, r = S.real('p', 0, 1), number(S)
    S.assume((p > r + EPS) | (p < r - EPS))
    fake_random(S, [r])
    S.check(truth(util.flipCoin(p)) == truth(r < p), 'flip-coin')


def large(S):
    """eight values, some of weight zero, one of any weight, any random numbers"""
    import util
    w = S.pick('weights', [[1, 0, 2, 3, 0, 5, 8, 1], [0, 0, 0, 1, 1, 1, 0, 0], [4, 4, 4, 4, 4, 4, 4, 4], [1, 0, 2] * 10])[:]
    w[S.pick('at', [0, 4, 7])] = S.real('w', 0, 9)
    tot = sum(w)
    how = S.choose('how', 4)
    if how == 0:
        w = [x / tot for x in w]
        tot = 1
    k = 4 if how == 3 else 1
    ts = [S.real('t', 0, lo_open=True)] + [tot * f for f in (0.3, 0.9, 0.6)[:k - 1]]
    S.assume(ts[0] < tot)
    want = [where(S, w, tot, t) for t in ts]
    fake_random(S, [t / tot for t in ts])
    vals = [f'v{i:02}' for i in range(len(w))]
    if how == 0:
        got = [util.chooseFromDistribution(list(zip(w, vals)))]
    elif how == 1:
        got = [util.sample(list(w), list(vals))]
    elif how == 2:
        c = util.Counter()
        for v, x in reversed(list(zip(vals, w))):
            c[v] = x
        got = [util.sampleFromCounter(c)]
    else:
        got = util.nSample(list(w), list(vals), k)
    S.check(sorted(got) == sorted(vals[i] for i in want), 'interval-of-the-random-number', lambda: (how, w, ts, got))


SCENARIOS = {'one': one, 'many': many, 'probability': probability, 'large': large}
