"""D42 starting games: options, agents, limits, a row of games and their report"""
import atexit
import io
import os
import pickle
import re
import shutil
import sys
import tempfile
from props.board import truth
from props.d40 import Display, FakeSignal

BOUNDS = {'quick': 'option texts of up to 3 parts; 2 directories with 2 modules each, every combination of what is there; any time '
                   'limit; 1-2 games of up to 3 moves on boards of one row with 0-2 ghosts, every course of the games; 5 and 8 games on a longer board; 9 options',
          'thorough': '1-3 games of up to 4 moves'}
OUTSIDE = 'the command line itself (D47), the graphics (D43-D46)'
ASSUMPTIONS = ['the text display which training games need is not in the repository: a stand-in here']


def options(S):
    """comma separated key=value or key"""
    import pacman
    want, parts = {}, []
    for i in range(1 + S.choose('n', 3)):
        k = S.pick(f'k{i}', ['a', 'bc', 'numTraining'])
        v = S.pick(f'v{i}', [None, '', '1', 'x y', '-0.5'])
        parts.append(k if v is None else k + '=' + v)
        want[k] = 1 if v is None else v
    got = pacman.parseAgentArgs(','.join(parts))
    S.check(got == want and all(type(got[k]) is type(want[k]) for k in want), 'options-as-given', lambda: (parts, got))
    S.check(pacman.parseAgentArgs(None) == {}, 'no-options', lambda: None)


def agents(S):
    """the agent is the first one of that name in a module *gents.py of the python path or the working directory"""
    import pacman
    import types
    dirs = ['one', 'two']
    files = {'one': ['aAgents.py', 'bAgents.py', 'other.py'], 'two': ['keyboardAgents.py', 'cagents.py', 'gents.txt'], '.': ['dAgents.py']}
    there = {f: S.flag(f'in.{f}') for d in files for f in files[d]}
    exists = {'one': S.flag('is.one'), 'two': True, '.': True}
    broken = S.pick('broken', [None, 'aAgents.py', 'keyboardAgents.py'])
    sep = S.pick('sep', [':', ';'])
    quiet = S.flag('quiet')
    real_isdir, real_listdir, real_import = os.path.isdir, os.listdir, __import__
    S.patch(os.path, 'isdir', lambda d: exists[d] if d in exists else real_isdir(d))
    S.patch(os, 'listdir', lambda d='.': list(files[d]) if d in files else real_listdir(d))
    S.patch(os.path, 'expandvars', lambda t: sep.join(dirs) if t == '$PYTHONPATH' else t)
    S.patch(os, 'environ', dict(os.environ, PYTHONPATH=sep.join(dirs)))
    mods = {}
    for d in files:
        for f in files[d]:
            mods[f[:-3]] = m = types.ModuleType(f[:-3])
            if there[f]:
                m.Wanted = (f,)

    def imp(name, *a, **k):
        if name in mods:
            if broken and broken[:-3] == name:
                raise ImportError(name)
            return mods[name]
        return real_import(name, *a, **k)
    pacman.__dict__['__import__'] = imp
    want = None
    for d in dirs + ['.']:
        if exists[d] and want is None:
            for f in files[d]:
                if want is None and f.endswith('gents.py') and f != broken and there[f]:
                    want = f
    r = S.attempt(pacman.loadAgent, 'Wanted', quiet)
    det = lambda: (there, exists, broken, sep, quiet, want, repr(r))
    if want is None or quiet and want == 'keyboardAgents.py':
        S.check(S.refused(r), 'no-such-agent-refused', det)
    else:
        S.check(r == (want,), 'first-agent-of-that-name', det)


def limits(S):
    """every limit is the given one"""
    import pacman
    t = S.real('t', 0)
    rules = pacman.ClassicGameRules(t)
    i = S.choose('agent', 3)
    for f in ('getMaxTotalTime', 'getMaxStartupTime', 'getMoveWarningTime', 'getMoveTimeout'):
        S.eq(getattr(rules, f)(i), t, 'limit-as-given', lambda: f)
    S.check(rules.getMaxTimeWarnings(i) == 0, 'no-warnings')
    S.check(pacman.ClassicGameRules().getMoveTimeout(i) == 30, 'default-limit')


class Script:
    """chooses any legal move"""

    def __init__(self, S, i, steps, most):
        self.S, self.i, self.steps, self.most = S, i, steps, most

    def getAction(self, state):
        a = self.S.pick(f'a{len(self.steps)}', sorted(state.getLegalActions(self.i)))
        self.steps.append((self.i, a))
        if len(self.steps) > self.most:
            self.S.assume(False)
        return a


_SCRATCH = {}


def scratch():
    """one scratch directory per process, removed at its end"""
    if os.getpid() not in _SCRATCH:
        _SCRATCH[os.getpid()] = tempfile.mkdtemp()
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_SCRATCH[me], ignore_errors=True))
    return _SCRATCH[os.getpid()]


def captured(fn, *a, **k):
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        r = fn(*a, **k)
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = real


def over(S):
    """the end of a game: announced unless quiet; progress is the share of the food which is left"""
    import pacman
    import layout
    FakeSignal(S)
    text = ['%%%%%%%', S.pick('row', ['%P.. G%', '%P.G .%', '%PG.. %']), '%%%%%%%']
    lay = layout.Layout(text)
    quiet = S.flag('quiet')
    steps = []
    rules = pacman.ClassicGameRules()
    g = rules.newGame(lay, Script(S, 0, steps, 4), [Script(S, 1, steps, 4)], Display([]), quiet, False)
    S.check(rules.getProgress(g) == 1, 'progress-at-the-start')
    _, out = captured(g.run)
    det = lambda: (text, steps, out)
    st = g.state
    S.check(abs(rules.getProgress(g) - st.getNumFood() / 2) < 1e-9, 'progress', det)
    if quiet:
        S.check(out == '', 'quiet', det)
    else:
        S.check(len(out.splitlines()) == 1 and re.findall('-?[0-9]+', out) == [str(int(st.getScore()))]
                and ('victorious' in out) == truth(st.isWin()) and ('died' in out) == truth(st.isLose()), 'end-announced', det)


def training(S):
    """training games come first, are neither shown nor announced nor counted, but recorded"""
    import types
    text = types.ModuleType('textDisplay')
    log = []
    text.NullGraphics = lambda: Display(log)
    sys.modules['textDisplay'] = text
    try:
        games(S, True, log)
    finally:
        del sys.modules['textDisplay']


training.covers = ('some', 'all')


def games(S, train=False, quiet_log=()):
    """a row of games: each from the start, all given back, the report tells their scores and results"""
    import pacman
    import layout
    FakeSignal(S)
    text = ['%%%%%', '%P.G%' if train else S.pick('row', ['%P.G%', '%PG.%', '%P. %', '%GP.%']), '%%%%%']
    lay = layout.Layout(text)
    n = 1 + S.choose('games', S.deep(2, 3))
    t = 1 + S.choose('training', n + 1) if train else 0
    record = S.flag('record')
    steps, log = [], []
    most = n * S.deep(3, 4)
    ghosts = [Script(S, i + 1, steps, most) for i in range(1 if train else S.choose('ghosts', 3))]
    here, d = os.getcwd(), scratch()
    try:
        os.chdir(d)
        gs, out = captured(pacman.runGames, lay, Script(S, 0, steps, most), ghosts, Display(log), n, record, *([t] if t else []))
        files = sorted(os.listdir(d))
        kept = []
        for f in files:
            with open(f, 'rb') as h:
                kept.append(pickle.load(h))
    finally:
        os.chdir(here)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    det = lambda: (text, n, t, steps, out)
    k = min(len(ghosts), lay.getNumGhosts())
    # the moves of all games, split where a game ends
    ends, runs = [], []
    st = None
    for i, a in steps:
        if st is None:
            st, run = pacman.GameState(), []
            st.initialize(layout.Layout(list(text)), k)
        st = st.generateSuccessor(i, a)
        run.append((i, a))
        if st.isWin() or st.isLose():
            ends.append(st)
            runs.append(run)
            st = None
    S.check(st is None and len(ends) == n, 'games-one-after-another-each-to-its-end', det)
    if st is not None or len(ends) != n:
        return
    allruns, ends = runs, ends[t:]
    S.check([g.moveHistory for g in gs] == runs[t:], 'all-games-given-back', det)
    for g, e in zip(gs, ends):
        S.check(g.state == e, 'each-game-from-the-start-to-its-end', det)
        S.check(len(g.agents) == 1 + k, 'an-agent-for-each-figure', det)
    for l, m in ((log, max(n - t, 0)), (quiet_log, min(n, t))):
        S.check([x[0] for x in l if x[0] != 'shown'] == ['shown first', 'closed'] * m, 'each-game-shown', lambda: l)
    S.check(sum('victorious' in l or 'died' in l for l in out.splitlines()) == len(ends), 'announced-unless-training', det)
    S.check(len(files) == (n if record else 0) and all(f.startswith('recorded-game-') for f in files), 'one-file-per-recorded-game',
            lambda: files)
    if record:
        S.check([c['actions'] for c in kept] == allruns and all(str(c['layout']) == '\n'.join(text) for c in kept), 'recorded-moves', det)
    if train:
        S.cover('some' if ends else 'all')
    if not ends:
        S.check(out == '', 'nothing-to-report', det)
        return
    scores = [int(st.getScore()) for st in ends]
    wins = [truth(st.isWin()) for st in ends]
    n = len(ends)
    lines = {l.split(':')[0].strip(): l.split(':', 1)[1].strip() for l in out.splitlines() if ':' in l}
    S.check(abs(float(lines['Average Score']) - sum(scores) / n) < 1e-6, 'average-score', det)
    S.check([float(x) for x in lines['Scores'].split(',')] == scores, 'scores', det)
    S.check(lines['Win Rate'].startswith(f'{sum(wins)}/{n} ') and abs(float(lines['Win Rate'].split('(')[1].rstrip(')')) - sum(wins) / n) < 0.006,
            'win-rate', det)
    S.check([x.strip() for x in lines['Record'].split(',')] == ['Win' if w else 'Loss' for w in wins], 'record', det)
    if not train:
        S.cover('won' if wins[0] else 'lost')


games.covers = ('won', 'lost')


class Planned:
    """plays a plan, one list of moves per game"""

    def __init__(self, i, plans):
        self.i, self.plans, self.game = i, plans, -1

    def registerInitialState(self, state):
        self.game += 1
        self.n = 0

    def getAction(self, state):
        a = self.plans[self.game][self.n]
        self.n += 1
        return a


def many_games(S):
    """a longer row of games, won and lost in any order"""
    import pacman
    import layout
    FakeSignal(S)
    text = ['%%%%%%%%', '%.P. G %', '%%%%%%%%']
    n = S.pick('games', [5, 8])
    kinds = [S.choose(f'kind{i}', 3) if i in (0, 3, n - 1) else i % 3 for i in range(n)]
    # lost at once, lost later, won
    pac = [['East', 'East'], ['Stop', 'East'], ['West', 'East', 'East']]
    gho = [['West', 'West'], ['West', 'West'], ['East', 'West']]
    lay = layout.Layout(list(text))
    log = []
    record = S.flag('record')
    d, here = scratch(), os.getcwd()
    try:
        os.chdir(d)
        gs, out = captured(pacman.runGames, lay, Planned(0, [pac[k] for k in kinds]), [Planned(1, [gho[k] for k in kinds])],
                           Display(log), n, record)
        files = os.listdir(d)
    finally:
        os.chdir(here)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    ends = []
    for k in kinds:
        st = pacman.GameState()
        st.initialize(layout.Layout(list(text)), 1)
        m = 0
        while not (st.isWin() or st.isLose()):
            st = st.generateSuccessor(m % 2, (pac, gho)[m % 2][k][m // 2])
            m += 1
        ends.append(st)
    det = lambda: (kinds, out)
    S.check(len(gs) == n and all(g.state == e for g, e in zip(gs, ends)), 'each-game-from-the-start-to-its-end', det)
    S.check([x[0] for x in log if x[0] != 'shown'] == ['shown first', 'closed'] * n, 'each-game-shown', lambda: log)
    S.check(not record or 1 <= len(files) <= n, 'one-file-per-recorded-game', lambda: files)
    scores = [int(st.getScore()) for st in ends]
    wins = [truth(st.isWin()) for st in ends]
    lines = {l.split(':')[0].strip(): l.split(':', 1)[1].strip() for l in out.splitlines() if ':' in l}
    S.check(abs(float(lines['Average Score']) - sum(scores) / n) < 1e-6, 'average-score', det)
    S.check([float(x) for x in lines['Scores'].split(',')] == scores, 'scores', det)
    S.check(lines['Win Rate'].startswith(f'{sum(wins)}/{n} ') and abs(float(lines['Win Rate'].split('(')[1].rstrip(')')) - sum(wins) / n) < 0.006,
            'win-rate', det)
    S.check([x.strip() for x in lines['Record'].split(',')] == ['Win' if w else 'Loss' for w in wins], 'record', det)
    S.cover('won' if wins[0] else 'lost')


many_games.covers = ('won', 'lost')


def many_options(S):
    import pacman
    n = S.pick('n', [5, 9])
    want, parts = {}, []
    for i in range(n):
        v = S.pick(f'v{i}', [None, f'{i}']) if i in (0, 4, n - 1) else f'x{i}' if i % 2 else None
        parts.append(f'k{i}' if v is None else f'k{i}={v}')
        want[f'k{i}'] = 1 if v is None else v
    got = pacman.parseAgentArgs(','.join(parts))
    S.check(got == want and all(type(got[k]) is type(want[k]) for k in want), 'options-as-given', lambda: (parts, got))


SCENARIOS = {'options': options, 'agents': agents, 'limits': limits, 'over': over, 'games': games, 'training': training, 'many_games': many_games, 'many_options': many_options}
