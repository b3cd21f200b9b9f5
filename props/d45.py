"""D45 keys, clicks, waiting and windows"""
import os
import shutil
import tempfile
from props.board import truth
from props.screen import Fake, Event

BOUNDS = {'quick': 'any history of 4 steps (events of 2 keys and the focus; asking for the keys in either way; waiting) after which the '
                   'queue runs empty; up to 3 clicks of all buttons at any place, arriving before or during the wait; any waiting time; '
                   'windows opened and closed up to 3 times, with failures; 14 events of 7 keys with 3 of them left open',
          'thorough': 'histories of 5 steps, 4 clicks'}
OUTSIDE = 'the event loop of tkinter itself'
ASSUMPTIONS = ['tkinter is replaced by a stand-in delivering queued events one by one (props/screen.py)']

KEYS = ['a', 'Left']


def start(S):
    fake = Fake(S)
    import graphicsUtils as u
    u.begin_graphics(100, 80)
    return fake, u


class Oracle:
    """keys by the events delivered so far"""

    def __init__(self, fake):
        self.fake, self.n = fake, 0
        self.down, self.waiting = set(), set()

    def catch_up(self):
        for e in self.fake.delivered[self.n:]:
            if e.pattern == '<KeyPress>':
                self.down.add(e.keysym)
                self.waiting.add(e.keysym)
            elif e.pattern == '<KeyRelease>':
                self.down.discard(e.keysym)
            elif e.pattern in ('<FocusIn>', '<FocusOut>'):
                self.down, self.waiting = set(), set()
        self.n = len(self.fake.delivered)


def step_event(S, i):
    k = S.choose(f'e{i}', 6)
    return [Event('<KeyPress>', KEYS[0]), Event('<KeyRelease>', KEYS[0]), Event('<KeyPress>', KEYS[1]), Event('<KeyRelease>', KEYS[1]),
            Event('<FocusIn>'), Event('<FocusOut>')][k]


def ask(S, fake, u, o, what, log, label=''):
    q = len(fake.queue)
    if what == 'pressed':
        got = list(u.keys_pressed())
        log.append((what, got))
        S.check(q == 0 or len(fake.queue) < q, 'asking-takes-events', lambda: log)
        o.catch_up()
        S.check(len(got) == len(set(got)) and set(got) == o.down, 'keys-which-are-down' + label, lambda: (log, o.down))
    else:
        got = list(u.keys_waiting())
        log.append((what, got))
        o.catch_up()
        S.check(len(got) == len(set(got)) and set(got) == o.waiting, 'keys-pressed-since' + label, lambda: (log, o.waiting))
        o.waiting = set()


def keys(S):
    """any history of events and questions"""
    fake, u = start(S)
    o = Oracle(fake)
    log = []
    for i in range(S.deep(4, 5)):
        what = S.pick(f's{i}', ['event', 'pressed', 'waiting', 'sleep'])
        if what == 'event':
            e = step_event(S, i)
            fake.queue.append(e)
            log.append(e)
        elif what == 'sleep':
            u.sleep(0.05)
            log.append(what)
            S.check(not fake.queue, 'events-arrive-while-waiting', lambda: log)
            o.catch_up()
        else:
            ask(S, fake, u, o, what, log)
    while fake.queue:
        ask(S, fake, u, o, 'pressed', log)
    ask(S, fake, u, o, 'waiting', log, '-at-the-end')
    ask(S, fake, u, o, 'waiting', log, '-none-twice')
    ask(S, fake, u, o, 'pressed', log, '-at-the-end')


def repeat(S):
    """a key held down (the system sends release and press pairs) is never reported as released"""
    fake, u = start(S)
    fake.queue.append(Event('<KeyPress>', 'a'))
    S.check(list(u.keys_pressed()) == ['a'], 'pressed')
    n = 1 + S.choose('n', S.deep(3, 5))
    for i in range(n):
        fake.queue += [Event('<KeyRelease>', 'a'), Event('<KeyPress>', 'a')]
    other = S.flag('other')
    if other:
        fake.queue.insert(2 * S.choose('at', n + 1), Event('<KeyPress>', 'b'))
    seen = []
    for i in range(2 * n + 2):
        seen.append(sorted(u.keys_pressed()))
        S.check('a' in seen[-1], 'held-key-stays-down', lambda: (n, other, seen))
    S.check(not fake.queue and seen[-1] == (['a', 'b'] if other else ['a']), 'all-events-seen', lambda: seen)
    fake.queue.append(Event('<KeyRelease>', 'a'))
    u.keys_pressed()
    S.check('a' not in u.keys_pressed(), 'released-key-is-up')


def wait_keys(S):
    """waits until a key is down"""
    fake, u = start(S)
    k = S.pick('key', KEYS)
    early = S.flag('early')
    n = S.choose('n', 4)
    noise = [Event('<KeyRelease>', KEYS[0]), Event('<FocusIn>')]
    if early:
        fake.queue.append(Event('<KeyPress>', k))
    else:
        fake.later = [S.subset(f'noise{i}', noise) for i in range(n)] + [[Event('<KeyPress>', k)]]
    got = list(u.wait_for_keys())
    S.check(got == [k], 'waits-for-a-key', lambda: (early, n, got))
    S.check(not fake.later, 'no-sooner', lambda: fake.later)


def clicks(S):
    """each click is reported once with its place and button, and none is made up"""
    fake, u = start(S)
    kinds = [('<Button-1>', 'left'), ('<Button-2>', 'right'), ('<Button-3>', 'right'), ('<Control-Button-1>', 'ctrl_left')]
    es = []
    pending, when = {}, {}
    for i in range(1 + S.choose('n', S.deep(3, 4))):
        p, b = S.pick(f'b{i}', kinds)
        e = Event(p, None, S.int(f'x{i}', 0), S.int(f'y{i}', 0))
        e.button = b
        es.append(e)
    # some before the first question, the others one per wait
    k = S.choose('before', len(es) + 1)
    fake.queue = es[:k]
    fake.later = [[]] * S.choose('pause', 2) + [[e] for e in es[k:]]
    if k:
        u.sleep(0)
        S.check(not fake.queue, 'events-arrive-while-waiting')
    seen = 0
    log = []
    while True:
        for e in fake.delivered[seen:]:
            pending[e.button] = (e.x, e.y)
        seen = len(fake.delivered)
        if not pending and not fake.later:
            break
        (x, y), b = u.wait_for_click()
        log.append((x, y, b))
        for e in fake.delivered[seen:]:
            pending[e.button] = (e.x, e.y)
        seen = len(fake.delivered)
        S.check(b in pending, 'click-not-reported-before', lambda: (es, log))
        if b in pending:
            S.check(truth(x == pending[b][0]) and truth(y == pending[b][1]), 'place-of-the-last-click', lambda: (es, log))
            del pending[b]
    fake.idle = 0
    S.check(S.refused(S.attempt(u.wait_for_click)), 'no-click-made-up', lambda: (es, log))


def waiting(S):
    """waits as long as asked, with and without a window"""
    fake = Fake(S)
    import graphicsUtils as u
    t = S.real('t', 0, 100)
    if S.flag('window'):
        u.begin_graphics(100, 80)
        u.sleep(t)
        w = fake.window.waits
        S.check(len(w) == 1 and truth(w[0] <= t * 1000) and truth(w[0] > t * 1000 - 1) and not fake.slept, 'waits-in-the-window', lambda: (t, w))
    else:
        u.sleep(t)
        S.check(len(fake.slept) == 1 and truth(fake.slept[0] == t), 'waits-without-a-window', lambda: (t, fake.slept))


def windows(S):
    """opening, closing and failing in any order: at most one window is there, without keys of an earlier one"""
    fake = Fake(S)
    import graphicsUtils as u
    there = False
    log = []
    for i in range(S.deep(3, 4)):
        what = S.pick(f's{i}', ['open', 'fails', 'close', 'closed by the user', 'key'])
        log.append(what)
        if what == 'open':
            colour = S.pick(f't{i}', ['#102030', '#405060'])
            u.begin_graphics(100, 80, colour, title=S.pick('title', [None, 'x']) if 'open' not in log[:-1] else 'x')
            S.check([b.opts['fill'] for b in fake.items()] == [colour], 'background-in-its-colour', lambda: fake.items())
            there = True
            S.check(len(fake.window.titles) == 1 and fake.window.titles[0] in ('x', 'Graphics Window'), 'title')
            S.check(fake.window.fixed == (0, 0), 'fixed-size')
        elif what == 'fails':
            fake.no_canvas = S.pick(f'how{i}', [RuntimeError, ValueError])
            S.check(S.refused(S.attempt(u.begin_graphics, 100, 80)), 'failure-reported', lambda: log)
            fake.no_canvas = False
            there = False
            fake.window.alive = False
        elif what == 'close':
            u.end_graphics()
            there = False
        elif what == 'key':
            if there:
                fake.queue.append(Event('<KeyPress>', 'a'))
                S.check(list(u.keys_pressed()) == ['a'], 'key-pressed', lambda: log)
            continue
        elif there:
            fake.later = [[Event('close')]]
            u.end_graphics()
            there = False
            fake.window.alive = False
        S.check([w.alive for w in fake.windows].count(True) == there, 'at-most-one-window', lambda: log)
        S.check(list(u.keys_waiting()) == [] or what == 'fails', 'no-keys-left', lambda: log)
        n = len(fake.slept)
        u.sleep(0.5)
        S.check((len(fake.slept) == n) == there, 'waits-in-the-window-if-there', lambda: log)


def saved(S):
    """frames are saved one after the other if asked for"""
    fake, u = start(S)
    import graphicsDisplay
    d = tempfile.mkdtemp()
    try:
        graphicsDisplay.POSTSCRIPT_OUTPUT_DIR = os.path.join(d, 'frames')
        graphicsDisplay.SAVE_POSTSCRIPT = on = S.flag('on')
        graphicsDisplay.FRAME_NUMBER = S.pick('from', [0, 98, 99998])
        if S.flag('there'):
            os.mkdir(os.path.join(d, 'frames'))
        n = S.choose('n', 4)
        for i in range(n):
            u.square((i, i), 5, '#112233')
            graphicsDisplay.saveFrame()
        got = sorted(os.listdir(os.path.join(d, 'frames'))) if os.path.isdir(os.path.join(d, 'frames')) else []
        S.check(len(got) == (n if on else 0) and len(set(got)) == len(got), 'a-file-per-frame', lambda: (n, on, got))
        for i, f in enumerate(got):
            with open(os.path.join(d, 'frames', f)) as h:
                S.check(h.read() == f'page 0.c 0.c with {i + 2} items', 'frame-as-it-was', lambda: (got, f))
    finally:
        shutil.rmtree(d)


def many_keys(S):
    """many keys at once and a longer history, in which some steps are left open"""
    fake, u = start(S)
    o = Oracle(fake)
    log = []
    names = ['a', 'Left', 'b', 'space', 'Return', 'x', '1']
    for i in range(14):
        k = names[(i * 3) % 7]
        if i in S.deep((5, 8, 11), (2, 5, 8, 11)):
            k = S.pick(f'k{i}', names[:3])
            e = S.pick(f'e{i}', [Event('<KeyPress>', k), Event('<KeyRelease>', k), Event('<FocusOut>')])
        else:
            e = Event('<KeyRelease>' if i in (9, 12) else '<KeyPress>', k)
        fake.queue.append(e)
        log.append(e)
        if i % 3 == 1:
            what = S.pick(f's{i}', ['pressed', 'sleep']) if i % 2 else 'pressed'
            if what == 'sleep':
                u.sleep(0.05)
                o.catch_up()
            else:
                ask(S, fake, u, o, what, log)
        if i == 9 and S.flag('ask'):
            ask(S, fake, u, o, 'waiting', log)
    while fake.queue:
        ask(S, fake, u, o, 'pressed', log)
    ask(S, fake, u, o, 'waiting', log, '-at-the-end')
    ask(S, fake, u, o, 'pressed', log, '-at-the-end')


SCENARIOS = {'keys': keys, 'repeat': repeat, 'wait_keys': wait_keys, 'clicks': clicks, 'waiting': waiting, 'windows': windows, 'saved': saved, 'many_keys': many_keys}
