"""C09 sample sets are multisets of samples: every operation is the multiset operation"""
from props.common import numbers, Vocab, Spec, items_of, same_set, merge_counts, iso_shapes
from props import large as big

BOUNDS = {'quick': 'pool of 4 samples over 3 variables, histories of 4 builder operations, 2-3 sets of up to 3 samples; '
                   'counts are unbounded positive integers; 14 outcomes over 7 variables',
          'thorough': 'histories of 5 operations, pool of 5 samples'}
OUTSIDE = 'counts below 1; longer histories'


def pool(S, voc, n=4):
    v, x, r = voc.vars, voc.vals, voc.rels
    all_ = [Spec({v[0]: x[0]}, {}),
            Spec({v[0]: x[0], v[1]: x[0]}, {frozenset({v[0], v[1]}): r[0]}),
            Spec({v[0]: x[0], v[1]: x[1]}, {frozenset({v[0], v[1]}): r[0]}),
            Spec({v[0]: x[0], v[1]: x[0], v[2]: x[0]}, {frozenset({v[0], v[1]}): r[0], frozenset({v[1], v[2]}): r[0]}),
            Spec({v[0]: x[0], v[1]: x[0]}, {frozenset({v[0], v[1]}): r[1]})]
    return all_[:n]


def check_set(S, ss, pairs, label):
    same_set(S, ss, pairs, label)
    total = 0
    for _, c in merge_counts(pairs):
        total = total + c
    S.eq(ss.length, total, label + '.length')
    S.eq(ss.__len__(), total, label + '.length')
    S.check(bool(ss) == bool(pairs), label + '.empty-flag')


def lookup(pairs, s):
    for t, c in merge_counts(pairs):
        if t == s:
            return c
    return None


def histories(S):
    from scripts.relnet.sample_set import SampleSetBuilder, SampleSet
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, S.deep(3, 4))
    b = SampleSetBuilder(voc.provider)
    model = []
    side = [(ps[0], S.int('side0', 1)), (ps[1], S.int('side1', 1))]
    side_set = SampleSet(voc.provider, {voc.build(s): c for s, c in side})
    for i in range(S.deep(4, 5)):
        op = S.choose(f'op{i}', 5)
        if op in (0, 1):
            s = ps[S.choose(f's{i}', len(ps))]
            if op == 0:
                n = S.int(f'n{i}', 1)
                r = b.add(voc.build(s, name=f'step{i}'), n)
                S.check(r is b, 'add-gives-the-builder')
                model = merge_counts(model + [(s, n)])
            else:
                had = lookup(model, s)
                r = S.attempt(b.remove, voc.build(s))
                S.check(S.refused(r) == (had is None), 'remove-refused-iff-absent', lambda: (s, model, r))
                if had is not None and not S.refused(r):
                    S.check(r[0] == voc.build(s), 'remove-gives-the-sample')
                    S.eq(r[1], had, 'remove-gives-the-count')
                    model = [(t, c) for t, c in model if not (t == s)]
        elif op == 2:
            S.check(b.add_all(side_set) is b, 'add-all-gives-the-builder')
            model = merge_counts(model + side)
        elif op == 3:
            ok = all(lookup(model, s) is not None for s, _ in side)
            if ok:
                S.check(b.remove_all(side_set) is b, 'remove-all-gives-the-builder')
                model = [(t, c) for t, c in model if not any(t == s for s, _ in side)]
            else:
                S.check(S.refused(S.attempt(b.copy().remove_all, side_set)), 'remove-all-refused-iff-some-absent')
        else:
            c = b.copy()
            c.add(voc.build(ps[1]), 1)
            c.remove(voc.build(ps[1]))
        S.eq(b.length(), sum_of(model), 'builder-length')
    S.check(bool(b) == bool(model), 'builder-empty-flag')
    check_set(S, b.build(), model, 'built')
    S.check({s for s in b.samples()} == {voc.build(s) for s, _ in model}, 'builder-samples')
    for s in ps:
        had = lookup(model, s)
        r = S.attempt(b.count_of, voc.build(s))
        S.check(S.refused(r) == (had is None), 'count-refused-iff-absent', lambda: (s, model))
        if had is not None and not S.refused(r):
            S.eq(r, had, 'count-of')
    S.check(not b.empty(), 'empty-is-empty')
    check_set(S, side_set, side, 'added-set-not-changed')


def sum_of(pairs):
    t = 0
    for _, c in pairs:
        t = t + c
    return t


def arbitrary_set(S, voc, name, ps):
    from scripts.relnet.sample_set import SampleSet
    pairs = [(s, S.int(f'{name}.n{i}', 1)) for i, s in enumerate(ps) if S.flag(f'{name}.has{i}')]
    return pairs, SampleSet(voc.provider, {voc.build(s, name=f'{name}{i}'): c for i, (s, c) in enumerate(pairs)})


def algebra(S):
    from scripts.relnet.sample_set import SampleSetBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, S.deep(3, 4))
    p, a = arbitrary_set(S, voc, 'a', ps)
    q, b = arbitrary_set(S, voc, 'b', ps)
    check_set(S, a, p, 'as-given')
    u = a.union(b)
    check_set(S, u, p + q, 'union')
    S.eq(u.length, a.length + b.length, 'union-length-adds-up')
    S.check(u == b.union(a) and hash(u) == hash(b.union(a)), 'union-commutes')
    keep = [S.flag(f'keep{i}') for i in range(len(ps))]
    specs = {voc.build(s): k for s, k in zip(ps, keep)}
    f = a.filter_samples(lambda s: specs[s])
    check_set(S, f, [(s, c) for s, c in p if keep[[s == t for t in ps].index(True)]], 'filter')
    check_set(S, a, p, 'set-not-changed')
    check_set(S, b, q, 'set-not-changed')
    check_set(S, a.builder().build(), p, 'builder-round-trip')
    for s in ps:
        had = lookup(p, s)
        r = S.attempt(a.count_of, voc.build(s))
        S.check(S.refused(r) == (had is None), 'count-refused-iff-absent', lambda: (s, p))
        if had is not None and not S.refused(r):
            S.eq(r, had, 'count-of')
    for v in voc.vars:
        S.check(a.have_variable(v) == any(v in s.nodes for s, _ in p), 'have-variable', lambda: (p, v))
        for x in voc.vals:
            S.check(a.have_value(v, x) == any(v in s.nodes and s.nodes[v] == x for s, _ in p), 'have-value',
                    lambda: (p, v, x))
    S.check(a.samples() == {voc.build(s) for s, _ in p}, 'samples')


def join_sets(S):
    from scripts.relnet.sample_set import SampleSetBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 2)
    sets = [arbitrary_set(S, voc, f's{i}', ps) for i in range(3)]
    n = S.choose('n', 4)
    r = S.attempt(SampleSetBuilder.join_sample_set, [s for _, s in sets[:n]])
    S.check(S.refused(r) == (n == 0), 'joining-no-sets-refused', lambda: (n, r))
    if n:
        check_set(S, r, [pc for p, _ in sets[:n] for pc in p], 'join-of-sets')


def equality(S):
    """equal iff the same samples with the same counts, in whatever order they were put in"""
    from scripts.relnet.sample_set import SampleSet
    S.hash_orders(2, collide=True)
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 3)
    p, a = arbitrary_set(S, voc, 'a', ps)
    q, _ = arbitrary_set(S, voc, 'b', ps)
    order = S.perm('order', q)
    b = SampleSet(voc.provider, {voc.build(s, name='other'): c for s, c in order})
    same = len(p) == len(q) and all(any(s == t and c == d for t, d in q) for s, c in p)
    S.check((a == b) == same, 'equal-iff-same-samples-and-counts', lambda: (p, q))
    S.check((a != b) != same, 'ne-is-negation', lambda: (p, q))
    if same:
        S.check(hash(a) == hash(b), 'hash-consistent', lambda: (p, q))
        S.check(len({a, b}) == 1, 'set-size', lambda: (p, q))
    S.check(not (a == items_of(a)) and a != None, 'never-equals-other-kind')  # noqa


def foreign(S):
    """samples and sets of another vocabulary are refused"""
    from scripts.relnet.sample_set import SampleSetBuilder, SampleSet
    voc = Vocab(S, 2, 2, 2)
    a = voc.build(Spec({voc.vars[0]: voc.vals[0]}, {}))
    n, m = S.int('n', 1), S.int('m', 1)
    p1 = voc.provider
    s1 = SampleSet(p1, {a: n})
    p2 = voc.new_provider()
    b = voc.build(Spec({voc.vars[0]: voc.vals[0]}, {}))
    s2 = SampleSet(p2, {b: m})
    S.check(s1.is_compatible(s1) and not s1.is_compatible(s2) and not s2.is_compatible(s1), 'compatibility')
    S.check(S.refused(S.attempt(s1.union, s2)), 'foreign-set-refused')
    bld = SampleSetBuilder(p1).add(a, n)
    S.check(S.refused(S.attempt(bld.add, b, m)), 'foreign-sample-refused')
    S.check(S.refused(S.attempt(bld.add_all, s2)), 'foreign-samples-refused')
    S.eq(bld.length(), n, 'refused-add-changes-nothing')


def with_itself(S):
    """a set or builder given to itself: counts double, everything is removed"""
    from scripts.relnet.sample_set import SampleSetBuilder
    voc = Vocab(S, 3, 2, 2)
    ps = pool(S, voc, 3)
    p, a = arbitrary_set(S, voc, 'a', ps)
    check_set(S, a.union(a), p + p, 'union-with-itself')
    k = 1 + S.choose('k', 4)
    check_set(S, SampleSetBuilder.join_sample_set([a] * k), p * k, 'join-of-sets')
    b = a.builder()
    S.check(b.add_all(a) is b, 'add-all-gives-the-builder')
    check_set(S, b.build(), p + p, 'added-to-its-own-builder')
    b.remove_all(a)
    check_set(S, b.build(), [], 'removed-from-its-own-builder')
    check_set(S, a, p, 'set-not-changed')
    b = a.builder()
    if S.flag('copy'):
        r = S.attempt(b.add_all, b.copy())
    else:
        r = S.attempt(b.add_all, b)
    S.check(r is b, 'add-all-of-a-builder', lambda: (p, r))
    check_set(S, b.build(), p + p, 'builder-added-to-itself')
    r = S.attempt(b.remove_all, b.copy())
    S.check(r is b, 'remove-all-of-a-builder', lambda: (p, r))
    S.check(not b, 'all-removed')


def large(S):
    """sets of a dozen samples with counts, built, united, filtered, and emptied again"""
    from scripts.relnet.sample_set import SampleSet, SampleSetBuilder
    voc = big.vocab(S)
    ps = big.many(S, voc)
    k = S.pick('k', [1, 5, 9, len(ps)])
    p, q = ps[:k], ps[k - 1:] + ps[:2]
    a = SampleSet(voc.provider, {voc.build(s): c for s, c in p})
    b = SampleSetBuilder(voc.provider)
    for s, c in q:
        b.add(voc.build(s), c)
    b = b.build()
    check_set(S, b, q, 'built')
    u = a.union(b)
    check_set(S, u, p + q, 'union')
    check_set(S, SampleSetBuilder.join_sample_set([a, b, u, a]), p + q + p + q + p, 'join-of-sets')
    check_set(S, u.filter_samples(lambda s: len(s.edges) > 1), [(s, c) for s, c in p + q if len(s.edges) > 1], 'filter')
    S.check(u == b.union(a) and hash(u) == hash(b.union(a)), 'union-commutes')
    bld = u.builder()
    for s, c in merge_counts(p + q)[:5]:
        r = bld.remove(voc.build(s))
        S.eq(r[1], c, 'remove-gives-the-count')
    S.eq(bld.length(), sum_of(merge_counts(p + q)[5:]), 'builder-length')
    if k > 2:
        check_set(S, bld.build(), merge_counts(p + q)[5:], 'removed')
    n = S.int('other', 1)
    i = S.choose('i', k)
    c = SampleSet(voc.provider, {voc.build(s): (n if j == i else m) for j, (s, m) in reversed(list(enumerate(p)))})
    S.check((a == c) == (n == p[i][1]), 'equal-iff-same-samples-and-counts', lambda: (p, i, n))


SCENARIOS = {'histories': histories, 'algebra': algebra, 'join_sets': join_sets, 'equality': equality, 'foreign': foreign, 'with_itself': with_itself}
numbers(SCENARIOS, 'algebra', 'equality')
SCENARIOS['large'] = large
