"""D36 stack, queue and priority queue"""
BOUNDS = {'quick': 'every history of up to 5 pushes and pops (items may be equal); priority queues of up to 4 entries with any '
                   'real priorities; then one update (two and a push with up to 2 entries); up to 33 items; 9 entries '
                   'with 2 of any priority and an update', 'thorough': 'up to 6 operations, 5 entries'}
OUTSIDE = 'update of an item which is in the queue more than once'


def fifo_lifo(S):
    import util
    kind = S.pick('kind', ['stack', 'queue'])
    q = util.Stack() if kind == 'stack' else util.Queue()
    model = []
    for i in range(S.deep(5, 6)):
        S.check(q.isEmpty() == (not model), 'is-empty', lambda: (kind, model))
        if S.flag(f'push{i}'):
            x = S.atom(f'x{i}', 'item')
            q.push(x)
            model.append(x)
        elif model:
            want = model.pop() if kind == 'stack' else model.pop(0)
            S.check(q.pop() == want, 'order', lambda: (kind, model))
        else:
            S.check(S.refused(S.attempt(q.pop)), 'pop-empty-refused')
    while model:
        want = model.pop() if kind == 'stack' else model.pop(0)
        S.check(q.pop() == want, 'order', lambda: (kind, model))
    S.check(q.isEmpty(), 'is-empty')


def two_apart(S):
    """two containers never share content"""
    import util
    mk = S.pick('kind', [util.Stack, util.Queue, util.PriorityQueue])
    a, b = mk(), mk()
    if mk is util.PriorityQueue:
        a.push('x', S.real('p'))
    else:
        a.push('x')
    S.check(b.isEmpty() and not a.isEmpty(), 'independent')
    S.check(a.pop() == 'x' and a.isEmpty(), 'independent')


def drain(S, q, entries, label):
    """entries: (priority, item) in the order of insertion"""
    left = list(entries)
    while left:
        S.check(not q.isEmpty(), 'is-empty', label)
        best = 0
        for i in range(1, len(left)):
            if left[i][0] < left[best][0]:
                best = i
        got = q.pop()
        S.check(got == left[best][1], label, lambda: (entries, got, left))
        left.pop(best)
    S.check(q.isEmpty(), 'is-empty', label)


def priorities(S):
    """lowest priority first, first in first out among equals"""
    import util
    n = 1 + S.choose('n', S.deep(4, 5))
    items = [f'i{k}' for k in range(n)]
    ps = [S.real(f'p{k}') for k in range(n)]
    if S.flag('function'):
        q = util.PriorityQueueWithFunction(lambda it: ps[int(it[1])])
        for it in items:
            q.push(it)
    else:
        q = util.PriorityQueue()
        for it, p in zip(items, ps):
            q.push(it, p)
    drain(S, q, list(zip(ps, items)), 'lowest-first')


def mixed(S):
    """pushes and pops interleaved, items need not be comparable"""
    import util
    q = util.PriorityQueue()
    model = []
    k = 0
    for i in range(S.deep(5, 6)):
        if not model or (i < 4 and S.flag(f'push{i}')):
            it = {'nr': k}
            p = S.real(f'p{k}')
            k += 1
            q.push(it, p)
            model.append((p, it))
        else:
            best = 0
            for j in range(1, len(model)):
                if model[j][0] < model[best][0]:
                    best = j
            want = model.pop(best)[1]
            got = q.pop()
            S.check(got is want, 'lowest-first', lambda: (got, want))
    drain(S, q, model, 'lowest-first')


def updated(S):
    """update lowers, never raises, and adds what is missing; an item keeps its place among equals"""
    import util
    n = 1 + S.choose('n', S.deep(3, 4))
    q = util.PriorityQueue()
    entries = []
    for k in range(n):
        p = S.real(f'p{k}')
        q.push(f'i{k}', p)
        entries.append((p, f'i{k}'))
    for j in range(1 if n > 2 else 1 + S.choose('updates', 2)):
        u = S.choose(f'u{j}', len(entries) + 1)
        new = S.real(f'new{j}')
        if u < len(entries):
            it = entries[u][1]
            q.update(it, new)
            if new < entries[u][0]:
                entries[u] = (new, it)
        else:
            q.update(f'other{j}', new)
            entries.append((new, f'other{j}'))
    if n < 3 and S.flag('push'):
        p = S.real('last')
        q.push('last', p)
        entries.append((p, 'last'))
    drain(S, q, entries, 'updated')


def long_history(S):
    """many items in and out"""
    import util
    kind = S.pick('kind', ['stack', 'queue'])
    q = util.Stack() if kind == 'stack' else util.Queue()
    model = []
    odd = S.pick('items', [None, '', 0, [], 'pair'])
    for r in range(3):
        for i in range(S.pick(f'in{r}', [0, 3, 11, 40] if r == 1 else [0, 3, 11])):
            it = (r, i) if odd == 'pair' or i % 3 else odd
            q.push(it)
            model.append(it)
        for i in range(min(len(model), S.pick(f'out{r}', [0, 2, 9]))):
            want = model.pop() if kind == 'stack' else model.pop(0)
            S.check(q.pop() == want, 'order', lambda: (kind, model))
        S.check(q.isEmpty() == (not model), 'is-empty', lambda: (kind, model))
    while model:
        want = model.pop() if kind == 'stack' else model.pop(0)
        S.check(q.pop() == want, 'order', lambda: (kind, model))
    S.check(q.isEmpty(), 'is-empty')


def many_entries(S):
    """a priority queue of nine entries, one of any priority, one updated to any priority"""
    import util
    ps = S.pick('priorities', [[5, 3, 8, 1, 9, 2, 7, 4], [4, 4, 4, 1, 1, 4, 1, 4], [9, 8, 7, 6, 5, 4, 3, 2], [1, 2, 3, 4, 5, 6, 7, 8]])
    at = S.pick('at', [0, 3, 8])
    p = S.real('p')
    entries = [(x, {'nr': i}) for i, x in enumerate(ps)]
    entries.insert(at, (p, {'nr': 'any'}))
    q = util.PriorityQueue()
    for x, it in entries:
        q.push(it, x)
    u = S.choose('updated', 10)
    if u < 9:
        new = S.real('new', 0, 10)
        q.update(entries[u][1], new)
        if new < entries[u][0]:
            entries[u] = (new, entries[u][1])
    drain(S, q, entries, 'updated' if u < 9 else 'lowest-first')


SCENARIOS = {'fifo_lifo': fifo_lifo, 'two_apart': two_apart, 'priorities': priorities, 'mixed': mixed, 'updated': updated, 'long_history': long_history, 'many_entries': many_entries}
