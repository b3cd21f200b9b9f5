"""D40 a game asks its agents in turn, plays exactly what they answer and ends when it is over or an agent fails"""
import io
import sys
from props.board import NAMES, truth

BOUNDS = {'quick': '1-3 agents, any first agent, games of up to 4 moves; 4-7 agents and games of up to 23 moves; a failure (exception or time out) at any one point of '
                   'any agent; any real durations of the start, of up to 2 observations and 3 moves, with any limits', 'thorough': 'up to 6 moves'}
OUTSIDE = 'output of agents which raise while failures are not caught; real signals (a recording stand-in is used)'


class Boom(Exception):
    pass


class St:
    """a state which only counts the moves made"""

    def __init__(self, world, n, copy_of=None):
        self.world, self.n, self.copy_of = world, n, copy_of
        self.data = ('data', n) if copy_of is None else ('copied data', n)

    def deepCopy(self):
        return St(self.world, self.n, self)

    def generateSuccessor(self, i, action):
        self.world.log.append(('play', i, action, self.n, self.copy_of is None))
        self.world.trouble('play', i, self.n)
        return St(self.world, self.n + 1)

    def isWin(self):
        return self.n >= self.world.limit and self.world.win

    def isLose(self):
        return self.n >= self.world.limit and not self.world.win


class World:
    def __init__(self, limit, win=True):
        self.limit, self.win = limit, win
        self.log = []
        self.fail = None     # (phase, agent, move)
        self.fail_kind = 'raise'
        self.signal = None
        self.now = 0
        self.spend = None    # (phase, agent, move) -> duration

    def trouble(self, phase, i, n):
        if self.spend is not None:
            self.now = self.now + self.spend(phase, i, n)
        if self.fail == (phase, i, n):
            self.log.append(('trouble',))
            if self.fail_kind == 'timeout':
                self.signal.fire()
            raise Boom(phase)


class FakeSignal:
    """stands for signal.signal and signal.alarm"""

    def __init__(self, S):
        import signal
        S.patch(signal, 'signal', self.signal)
        S.patch(signal, 'getsignal', self.getsignal)
        S.patch(signal, 'alarm', self.alarm)
        self.handler, self.armed, self.calls = 0, 0, []

    def signal(self, num, h):
        old, self.handler = self.handler, h
        return old

    def getsignal(self, num):
        return self.handler

    def alarm(self, t):
        self.armed = t
        self.calls.append(t)
        return 0

    def fire(self):
        self.handler(14, None)


class Display:
    def __init__(self, log):
        self.log = log

    def initialize(self, data):
        self.log.append(('shown first', data))

    def update(self, data):
        self.log.append(('shown', data))

    def finish(self):
        self.log.append(('closed',))


def make_agent(world, i, has):
    class A:
        def getAction(self, obs):
            world.log.append(('asked', i, obs))
            if has.get('talk'):
                sys.stdout.write(f'agent {i} thinks')
            n = obs.n if isinstance(obs, St) else obs[1].n
            world.trouble('act', i, n)
            return ('move', i, n)
    if has.get('register'):
        def reg(self, state):
            world.log.append(('told', i, state))
            world.trouble('register', i, state.n)
        A.registerInitialState = reg
    if has.get('observe'):
        def ob(self, state):
            world.log.append(('observes', i, state))
            world.trouble('observe', i, state.n)
            return ('seen', state)
        A.observationFunction = ob
    if has.get('final'):
        def fin(self, state):
            world.log.append(('end', i, state))
            world.trouble('final', i, 0)
        A.final = fin
    return A()


class Rules:
    """plain rules which only know when the game is over"""

    def __init__(self, world, limits=None):
        self.world = world
        self.crashed = []
        self.limits = limits or {}

    def process(self, state, game):
        if state.n >= self.world.limit:
            game.gameOver = True

    def agentCrash(self, game, i):
        self.crashed.append(i)

    def getMaxTotalTime(self, i): return self.limits.get('total', 30)
    def getMaxStartupTime(self, i): return 30
    def getMoveWarningTime(self, i): return self.limits.get('warn', 30)
    def getMoveTimeout(self, i): return 100
    def getMaxTimeWarnings(self, i): return self.limits.get('warnings', 0)
    def getProgress(self, game): return 0.5


def game_of(S, world, n, has, rules, **k):
    import game
    sig = FakeSignal(S)
    world.signal = sig
    agents = [make_agent(world, i, has) for i in range(n)]
    g = game.Game(agents, Display(world.log), rules, **k)
    g.state = St(world, 0)
    return g


def features(S):
    return {'register': S.flag('register'), 'observe': S.flag('observe'), 'final': S.flag('final')}


def check_log(S, world, n, first, has, upto, det, final=True):
    """the full expected course of a game of `upto` moves"""
    want = [('shown first', ('data', 0))]
    if has['register']:
        want += [('told', i, 0) for i in range(n)]
    for m in range(upto):
        i = (first + m) % n
        if has['observe']:
            want.append(('observes', i, m))
        want.append(('asked', i, m))
        want.append(('play', i, ('move', i, m), m, True))
        want.append(('shown', ('data', m + 1)))
    if final:
        if has['final']:
            want += [('end', i, upto) for i in range(n)]
        want.append(('closed',))
    got = []
    for e in world.log:
        if e[0] in ('told', 'observes', 'asked', 'end'):
            st = e[2] if isinstance(e[2], St) else e[2][1]
            if e[0] == 'asked':
                S.check(isinstance(e[2], tuple) == has['observe'], 'gets-its-observation', det)
            if e[0] != 'end':
                S.check(st.copy_of is not None, 'agents-see-copies', det)
            got.append((e[0], e[1], st.n))
        else:
            got.append(e)
    S.check(got == want, 'course-of-the-game', lambda: (got, want))


def plain(S):
    n = 1 + S.choose('n', 3)
    first = S.choose('first', n)
    limit = 1 + S.choose('limit', S.deep(4, 6))
    has = features(S)
    catch = S.flag('catch')
    w = World(limit)
    rules = Rules(w)
    g = game_of(S, w, n, has, rules, startingIndex=first, catchExceptions=catch)
    out = sys.stdout
    g.run()
    det = lambda: (n, first, limit, has, w.log)
    check_log(S, w, n, first, has, limit, det)
    S.check(g.moveHistory == [((first + m) % n, ('move', (first + m) % n, m)) for m in range(limit)], 'history', det)
    S.check(truth(g.gameOver) and not g.agentCrashed and not rules.crashed and g.state.n == limit, 'over', det)
    S.check(sys.stdout is out, 'output-restored', det)
    S.check(w.signal.armed == 0 and w.signal.handler == 0, 'no-alarm-left', det)
    S.check(g.getProgress() == 1.0, 'progress', det)


def failing(S):
    """one agent fails at one point: the game is over, nobody else is asked, nothing escapes"""
    n = 1 + S.choose('n', 2)
    limit = 1 + S.choose('limit', 3)
    has = features(S)
    w = World(limit)
    phase = S.pick('phase', ['register', 'observe', 'act', 'play', 'final'])
    S.assume(phase in ('act', 'play') or has[phase])
    at = S.choose('at', limit) if phase not in ('register', 'final') else 0
    who = at % n if phase not in ('register', 'final') else S.choose('who', n)
    w.fail = (phase, who, at)
    w.fail_kind = S.pick('kind', ['raise', 'timeout']) if phase in ('register', 'observe', 'act') else 'raise'
    rules = Rules(w)
    mute = S.flag('mute')
    has['talk'] = True
    g = game_of(S, w, n, has, rules, catchExceptions=True, muteAgents=mute)
    g.display = Display(w.log)
    real, cap = sys.stdout, io.StringIO()
    sys.stdout = cap
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        r = S.attempt(g.run)
        back = sys.stdout
    finally:
        sys.stdout, sys.stderr = real, err
    det = lambda: (n, limit, has, w.fail, w.fail_kind, mute, w.log, repr(r))
    S.check(not S.refused(r), 'failure-caught', det)
    S.check(truth(g.gameOver) and truth(g.agentCrashed) and rules.crashed == [who], 'the-agent-crashed', det)
    S.check(g.getProgress() == 1.0, 'over', det)
    S.check(back is cap, 'output-restored', det)
    S.check(truth(g.agentTimeout) == (w.fail_kind == 'timeout'), 'timeout-mark', det)
    S.check(w.signal.armed == 0 and w.signal.handler == 0, 'no-alarm-left', det)
    k = [i for i, e in enumerate(w.log) if e == ('trouble',)][0]
    late = [e for e in w.log[k + 1:] if e[0] in ('asked', 'observes', 'told', 'play', 'shown')]
    S.check(late == [], 'nobody-else-is-asked', det)
    played = limit if phase == 'final' else at
    S.check(g.state.n == (0 if phase == 'register' else played), 'moves-made-before', det)
    S.check([i for i, _ in g.moveHistory] == [m % n for m in range(len(g.moveHistory))]
            and len(g.moveHistory) == (0 if phase == 'register' else played + (1 if phase == 'play' else 0)), 'history', det)
    said = [g.agentOutput[i].getvalue() for i in range(n)]
    spoke = [sum(1 for e in w.log if e[0] == 'asked' and e[1] == i) for i in range(n)]
    if mute:
        S.check('thinks' not in cap.getvalue() and all(s.count('thinks') == c for s, c in zip(said, spoke)),
                'muted-output-kept-apart', det)
    else:
        S.check(all('thinks' not in s for s in said) and cap.getvalue().count('thinks') == sum(spoke), 'output-passed', det)


def not_loaded(S):
    n = 1 + S.choose('n', 3)
    w = World(3)
    rules = Rules(w)
    g = game_of(S, w, n, {}, rules, catchExceptions=S.flag('catch'), muteAgents=S.flag('mute'))
    k = S.choose('k', n)
    g.agents[k] = None
    out, err = sys.stdout, sys.stderr
    sys.stderr = io.StringIO()
    mine = sys.stderr
    try:
        g.run()
        ok = sys.stdout is out and sys.stderr is mine
    finally:
        sys.stdout, sys.stderr = out, err
    S.check(ok, 'output-restored')
    S.check(rules.crashed == [k] and truth(g.gameOver) and truth(g.agentCrashed) and g.moveHistory == [], 'missing-agent', lambda: w.log)


def uncaught(S):
    """failures pass to the caller when they are not to be caught"""
    w = World(3)
    has = features(S)
    phase = S.pick('phase', ['register', 'observe', 'act', 'play', 'final'])
    S.assume(phase in ('act', 'play') or has[phase])
    w.fail = (phase, 0, 0)
    g = game_of(S, w, 2, has, Rules(w))
    try:
        g.run()
        got = None
    except Boom as e:
        got = e
    S.check(isinstance(got, Boom) and str(got) == phase, 'passed-on', lambda: (phase, w.log))
    S.check(not g.agentCrashed, 'passed-on')


def clock(S, fn):
    import time
    for n in ('time', 'monotonic', 'perf_counter'):
        S.patch(time, n, fn)


def timed(S):
    """an agent which uses more than its time in too many moves, or in total, fails; its move is not played"""
    n = 1 + S.choose('n', 2)
    limit = S.deep(3, 4)
    d = [S.real(f'd{i}', 0, 20) for i in range(limit)]
    lim = {'total': S.real('total', 0, 60), 'warn': S.real('warn', 0, 20), 'warnings': S.choose('warnings', 2)}
    has = {'observe': S.flag('observe'), 'register': S.flag('register')}
    ob = [S.real(f'o{i}', 0, 20) if has['observe'] and i < 2 else 0 for i in range(limit)]
    begin = [S.real(f'b{i}', 0, 20) if has['register'] else 0 for i in range(n)]
    w = World(limit)
    rules = Rules(w, lim)
    g = game_of(S, w, n, has, rules, catchExceptions=True)
    clock(S, lambda: w.now)
    w.spend = lambda phase, i, m: {'register': lambda: begin[i], 'observe': lambda: ob[m], 'act': lambda: d[m]}.get(phase, lambda: 0)()
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        g.run()
    finally:
        sys.stderr = err
    tot, warn = list(begin), [0] * n
    fail = None
    for m in range(limit):
        i = m % n
        t = d[m] + ob[m]
        if truth(t > lim['warn']):
            warn[i] += 1
            if warn[i] > lim['warnings']:
                fail = (m, i)
                break
        tot[i] = tot[i] + t
        if truth(tot[i] > lim['total']):
            fail = (m, i)
            break
    det = lambda: (n, d, ob, begin, lim, fail, g.moveHistory, rules.crashed)
    if fail:
        S.cover('too slow')
        S.check(rules.crashed == [fail[1]] and truth(g.agentTimeout) and truth(g.gameOver), 'too-slow-fails', det)
        S.check(g.state.n == fail[0] and len(g.moveHistory) == fail[0], 'late-move-not-played', det)
    else:
        S.cover('in time')
        S.check(rules.crashed == [] and not g.agentTimeout and g.state.n == limit, 'in-time-goes-on', det)


timed.covers = ('too slow', 'in time')


def classic(S):
    """a real game on a tiny board: the agents' moves decide it"""
    import pacman
    import layout
    FakeSignal(S)
    text = ['%%%%%%', S.pick('row', ['%P. G%', '%P.G %', '%PG. %', '%P.GG%']), '%%%%%%']
    lay = layout.Layout(text)
    quiet = S.flag('quiet')
    steps = []

    class Script:
        def __init__(self, i):
            self.i = i

        def getAction(self, state):
            legal = state.getLegalActions(self.i)
            a = S.pick(f'a{len(steps)}', sorted(legal))
            steps.append((self.i, a))
            if len(steps) > S.deep(6, 8):
                S.assume(False)
            return a
    ghosts = [Script(1), Script(2), Script(3)][:1 + S.choose('ghosts', 3)]
    rules = pacman.ClassicGameRules()
    log = []
    g = rules.newGame(lay, Script(0), ghosts, Display(log), quiet, False)
    k = min(len(ghosts), lay.getNumGhosts())
    S.check(len(g.agents) == 1 + k and g.state.getNumAgents() == 1 + k, 'an-agent-for-each-figure', lambda: (text, len(g.agents)))
    start = g.state
    g.run()
    det = lambda: (text, steps)
    S.check(g.moveHistory == steps and [i for i, _ in steps] == [m % (1 + k) for m in range(len(steps))], 'history', det)
    # replay of the history by the rules alone
    st = start
    for j, (i, a) in enumerate(steps):
        S.check(not st.isWin() and not st.isLose(), 'ends-when-over', det)
        st = st.generateSuccessor(i, a)
    S.check(st == g.state and truth(st.isWin()) == truth(g.state.isWin()) and truth(st.isLose()) == truth(g.state.isLose())
            and (st.isWin() or st.isLose()), 'result-of-the-moves', det)
    S.cover('won' if st.isWin() else 'lost')


classic.covers = ('won', 'lost')
def large(S):
    """a longer game of many agents"""
    n = S.pick('n', [4, 5, 7])
    first = S.choose('first', n)
    limit = S.pick('limit', [9, 16, 23])
    has = {'register': S.flag('register'), 'observe': S.flag('observe'), 'final': S.flag('final')}
    w = World(limit)
    rules = Rules(w)
    g = game_of(S, w, n, has, rules, startingIndex=first, catchExceptions=S.flag('catch'))
    g.run()
    det = lambda: (n, first, limit, has, w.log)
    check_log(S, w, n, first, has, limit, det)
    S.check(g.moveHistory == [((first + m) % n, ('move', (first + m) % n, m)) for m in range(limit)], 'history', det)
    S.check(truth(g.gameOver) and not rules.crashed and g.state.n == limit, 'over', det)
    S.check(w.signal.armed == 0 and w.signal.handler == 0, 'no-alarm-left', det)


SCENARIOS = {'plain': plain, 'failing': failing, 'not_loaded': not_loaded, 'uncaught': uncaught, 'timed': timed,
             'classic': classic, 'large': large}
