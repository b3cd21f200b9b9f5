"""D37 counters"""
BOUNDS = {'quick': 'counters over up to 3 names (which may coincide) with any real counts; two counters of 8 and 40 names with one count of any value each', 'thorough': 'up to 4 names'}
OUTSIDE = 'floating point rounding; adding a counter to something which is not a counter'


def counter(S, n, k, signed=True):
    import util
    c, ref = util.Counter(), {}
    for i in range(k):
        key = S.atom(f'{n}k{i}', 'key')
        v = S.real(f'{n}v{i}', None if signed else 0)
        c[key] = v
        ref[key] = v
    return c, ref


def same(S, c, ref, label, keys=()):
    """shows exactly the counts of ref, 0 for everything else"""
    d = dict(c.items())
    for k in list(ref) + list(keys):
        S.eq(d.get(k, 0), ref.get(k, 0), label, lambda: (d, ref))
    for k in d:
        if k not in ref:
            S.eq(d[k], 0, label, lambda: (d, ref))


def single(S):
    import util
    c, ref = counter(S, 'a', S.choose('n', S.deep(4, 5)))
    tot = sum(ref.values()) if ref else 0
    S.eq(c.totalCount(), tot, 'total', lambda: ref)
    cp = c.copy()
    S.check(isinstance(cp, util.Counter) and set(dict(cp.items())) == set(ref), 'copy', lambda: (ref, cp))
    same(S, cp, ref, 'copy')
    other = S.atom('other', 'key')
    S.eq(c[other], ref.get(other, 0), 'missing-is-zero', lambda: ref)
    c[other] += 1
    same(S, cp, ref, 'copy-independent')
    S.eq(cp[other], ref.get(other, 0), 'copy-independent')
    S.eq(c[other], ref.get(other, 0) + 1, 'counting')
    if S.flag('twice'):
        keys, inc = [S.atom('i0', 'key'), S.atom('i1', 'key')], S.real('inc')
        r2 = dict(ref)
        for k in keys:
            r2[k] = r2.get(k, 0) + inc
        cp.incrementAll(keys, inc)
        same(S, cp, r2, 'increment-all')


def scaled(S):
    import util
    c, ref = counter(S, 'a', 1 + S.choose('n', S.deep(3, 4)))
    tot = sum(ref.values())
    how = S.choose('how', 3)
    if how == 0:
        by = S.real('by')
        S.assume(by != 0)
        c.divideAll(by)
        same(S, c, {k: v / by for k, v in ref.items()}, 'divide-all')
        return
    if how == 1:
        r = util.normalize(c)
        if tot == 0:
            same(S, r, ref, 'zero-total-unchanged')
        else:
            same(S, c, ref, 'argument-unchanged')
    else:
        c.normalize()
        r = c
        if tot == 0:
            same(S, r, ref, 'zero-total-unchanged')
    if tot != 0:
        S.cover('normal')
        S.eq(r.totalCount(), 1, 'sums-to-one', lambda: ref)
        same(S, r, {k: v / tot for k, v in ref.items()}, 'same-ratios')


scaled.covers = ('normal',)


def vector(S):
    import util
    n = 1 + S.choose('n', S.deep(3, 4))
    v = [S.real(f'v{i}') for i in range(n)]
    tot = sum(v)
    r = util.normalize(list(v))
    S.check(len(r) == n, 'vector')
    for a, b in zip(r, v):
        S.eq(a, b if tot == 0 else b / tot, 'vector', lambda: (v, r))


def pair(S):
    import util
    n = S.deep(2, 3)
    a, ra = counter(S, 'a', S.choose('n', n + 1))
    b, rb = counter(S, 'b', S.choose('m', n + 1))
    keys = set(ra) | set(rb)
    det = lambda: (ra, rb)
    how = S.choose('how', 4)
    if how == 0:
        r = a + b
        same(S, r, {k: ra.get(k, 0) + rb.get(k, 0) for k in keys}, 'sum')
    elif how == 1:
        r = a - b
        same(S, r, {k: ra.get(k, 0) - rb.get(k, 0) for k in keys}, 'difference')
    elif how == 2:
        dot = 0
        for k in ra:
            if k in rb:
                dot = dot + ra[k] * rb[k]
        r = None
        S.eq(a * b, dot, 'dot-product', det)
    else:
        old = a
        a += b
        r = a
        same(S, r, {k: ra.get(k, 0) + rb.get(k, 0) for k in keys}, 'in-place-sum')
        same(S, b, rb, 'operands-unchanged')
        return
    if r is not None:
        S.check(isinstance(r, util.Counter), 'a-counter')
        S.check(r is not a and r is not b, 'a-new-counter')
        r['fresh'] = 3
        for k in keys:
            r[k] += 1
    S.check('fresh' not in a and 'fresh' not in b, 'operands-unchanged')
    S.check(len(a) == len(ra) and len(b) == len(rb), 'operands-unchanged', det)
    same(S, a, ra, 'operands-unchanged')
    same(S, b, rb, 'operands-unchanged')


def ranked(S):
    c, ref = counter(S, 'a', S.choose('n', S.deep(4, 5)))
    m = c.argMax()
    if not ref:
        S.check(m is None, 'arg-max-empty')
    else:
        S.check(m in ref, 'arg-max', lambda: (ref, m))
        for k in ref:
            S.check(ref[k] <= ref[m], 'arg-max', lambda: (ref, m))
    ks = c.sortedKeys()
    S.check(len(ks) == len(ref) and set(ks) == set(ref), 'sorted-keys', lambda: (ref, ks))
    for p, q in zip(ks, ks[1:]):
        S.check(ref[p] >= ref[q], 'sorted-keys', lambda: (ref, ks))
    same(S, c, ref, 'ranking-changes-nothing')


def large(S):
    """counters of many names, some common, two counts of any value"""
    import util
    a, b = util.Counter(), util.Counter()
    ra, rb = {}, {}
    n = S.pick('n', [8, 40])
    for i in range(n):
        v = [3, -1, 4, 1.5, -5, 9, 2, 6][i % 8] + 16 * (i // 8)
        ra[f'k{i}'] = v
        rb[f'k{n + 3 - i}'] = v + 1
    for i in range(S.pick('extra', [0, 2])):
        rb[f'x{i}'] = 2.5 - i
    i, j = S.pick('i', ['k0', 'k5', f'k{n - 1}']), S.pick('j', ['k4', 'k7', f'k{n + 3}'])
    ra[i], rb[j] = S.real('v'), S.real('w')
    for c, r in ((a, ra), (b, rb)):
        for k in r:
            c[k] = r[k]
    keys = sorted(set(ra) | set(rb))
    how = S.choose('how', 7)
    det = lambda: (ra, rb)
    if how == 0:
        same(S, a + b, {k: ra.get(k, 0) + rb.get(k, 0) for k in keys}, 'sum')
    elif how == 1:
        same(S, a - b, {k: ra.get(k, 0) - rb.get(k, 0) for k in keys}, 'difference')
    elif how == 2:
        S.eq(a * b, sum(ra[k] * rb[k] for k in ra if k in rb), 'dot-product', det)
        S.eq(b * a, sum(ra[k] * rb[k] for k in ra if k in rb), 'dot-product', det)
    elif how == 3:
        S.eq(a.totalCount(), sum(ra.values()), 'total', det)
        m = a.argMax()
        for k in ra:
            S.check(ra[k] <= ra[m], 'arg-max', lambda: (ra, m))
        ks = a.sortedKeys()
        S.check(sorted(ks) == sorted(ra), 'sorted-keys', lambda: (ra, ks))
        for p, q in zip(ks, ks[1:]):
            S.check(ra[p] >= ra[q], 'sorted-keys', lambda: (ra, ks))
    elif how == 4:
        tot = sum(ra.values())
        S.assume(tot != 0)
        r = util.normalize(a)
        same(S, r, {k: v / tot for k, v in ra.items()}, 'same-ratios')
        same(S, a, ra, 'argument-unchanged')
        a.normalize()
        same(S, a, {k: v / tot for k, v in ra.items()}, 'same-ratios')
        l = util.normalize(list(ra.values()))
        for x, v in zip(l, ra.values()):
            S.eq(x, v / tot, 'vector', det)
        return
    elif how == 5:
        c = a.copy()
        c.incrementAll(keys, 2)
        same(S, c, {k: ra.get(k, 0) + 2 for k in keys}, 'increment-all')
        c.divideAll(4)
        same(S, c, {k: (ra.get(k, 0) + 2) / 4 for k in keys}, 'divide-all')
    else:
        a += b
        same(S, a, {k: ra.get(k, 0) + rb.get(k, 0) for k in keys}, 'in-place-sum')
        same(S, b, rb, 'operands-unchanged')
        return
    same(S, a, ra, 'operands-unchanged')
    same(S, b, rb, 'operands-unchanged')
    S.check(len(a) == len(ra) and len(b) == len(rb), 'operands-unchanged', det)


SCENARIOS = {'single': single, 'scaled': scaled, 'vector': vector, 'pair': pair, 'ranked': ranked, 'large': large}
