"""D41 a function with a time limit"""
from props.d40 import FakeSignal, Boom, clock
from props.board import truth

BOUNDS = {'quick': 'one call: the function returns, raises or runs out of time, with any result and any limit, with alarm signals '
                   'and without them (any real duration); two calls after each other, nine calls of one limited function', 'thorough': 'the same'}
OUTSIDE = 'real signals (a recording stand-in is used); nested time limits'


def with_alarm(S):
    import util
    sig = FakeSignal(S)
    sig.handler = old = S.pick('old', [0, 'mine'])
    for i in range(1 + S.choose('calls', 2)):
        how = S.pick(f'how{i}', ['returns', 'raises', 'late'])
        limit = S.int(f'limit{i}', 1, 100)
        res = S.int(f'res{i}')
        seen = []

        def fn(*a, **k):
            seen.append((a, k, sig.armed, sig.handler != old))
            if how == 'late':
                sig.fire()
            if how == 'raises':
                raise Boom('x')
            return res
        r = S.attempt(util.TimeoutFunction(fn, limit), 1, b=2)
        det = lambda: (how, limit, seen, repr(r), sig.armed, sig.handler)
        S.check(len(seen) == 1 and seen[0][:2] == ((1,), {'b': 2}), 'called-once-with-the-arguments', det)
        S.eq(seen[0][2], limit, 'alarm-set-to-the-limit', det)
        S.check(seen[0][3], 'alarm-handled-during-the-call', det)
        if how == 'returns':
            S.check(not S.refused(r), 'returns', det)
            S.eq(r, res, 'returns', det)
        else:
            S.check(S.refused(r) and isinstance(r.exc, Boom if how == 'raises' else util.TimeoutFunctionException),
                    'raises-' + how, det)
        S.check(sig.armed == 0, 'no-alarm-left', det)
        S.check(sig.handler == old, 'handler-restored', det)


def without_alarm(S):
    import util
    import signal
    S.unpatch(signal, 'SIGALRM')
    d, limit, res = S.real('d', 0), S.int('limit', 1, 100), S.int('res')
    t = [S.real('start', 0), None]

    def fn(x):
        t[1] = t[0] + d
        return res + x
    clock(S, lambda: t[0] if t[1] is None else t[1])
    r = S.attempt(util.TimeoutFunction(fn, limit), 5)
    late = truth(d > limit)
    S.assume(d != limit)
    S.check(S.refused(r) == late and (not late or isinstance(r.exc, util.TimeoutFunctionException)), 'late', lambda: (d, limit))
    if not late:
        S.eq(r, res + 5, 'returns')


def printing(S):
    """muting hides what is printed until unmuted, however often it is called"""
    import util
    import io
    import sys
    real = sys.stdout
    mine = sys.stdout = io.StringIO()
    muted, want = False, ''
    try:
        for i in range(S.deep(4, 6)):
            k = S.choose(f'op{i}', 3)
            if k == 0:
                util.mutePrint()
                muted = True
            elif k == 1:
                util.unmutePrint()
                muted = False
            else:
                sys.stdout.write(f'{i}')
                want += '' if muted else f'{i}'
        S.check(mine.getvalue() == want, 'muted-exactly-between', lambda: (mine.getvalue(), want))
        util.unmutePrint()
        S.check(sys.stdout is mine, 'output-restored')
    finally:
        sys.stdout = real


def again(S):
    """a time limit used over and over: every call is as good as the first"""
    import util
    sig = FakeSignal(S)
    t = util.TimeoutFunction(lambda how, x: do(how, x), S.int('limit', 1, 100))

    def do(how, x):
        if how == 'late':
            sig.fire()
        if how == 'raises':
            raise Boom('x')
        return x
    for i in range(9):
        how = S.pick(f'how{i}', ['returns', 'raises', 'late']) if i in (0, 4, 8) else ['returns', 'late'][i % 2]
        r = S.attempt(t, how, i)
        det = lambda: (i, how, repr(r))
        if how == 'returns':
            S.check(r == i, 'returns', det)
        else:
            S.check(S.refused(r) and isinstance(r.exc, Boom if how == 'raises' else util.TimeoutFunctionException), 'raises-' + how, det)
        S.check(sig.armed == 0 and sig.handler == 0, 'no-alarm-left', det)


SCENARIOS = {'with_alarm': with_alarm, 'without_alarm': without_alarm, 'printing': printing, 'again': again}
