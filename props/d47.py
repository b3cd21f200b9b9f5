"""D47 the command line"""
import io
import os
import sys
import types
from props.screen import Fake
from props.d42 import scratch

BOUNDS = {'quick': 'up to 3 of the 15 options in either spelling, each with 2-3 values, in any order; agents with options; unknown options, '
                   'words, values, layouts and agents; 13-15 options at once',
          'thorough': 'up to 4 options'}
OUTSIDE = 'the text display (not in the repository; a stand-in here); option parsing itself is the standard library'
ASSUMPTIONS = ['tkinter and textDisplay are replaced by stand-ins']

# option: spellings, values, name of the argument, meaning
INT = ('numGames', 'numTraining', 'timeout')
OPTS = [
    (('-n', '--numGames'), ['3', '0'], 'numGames', int),
    (('-l', '--layout'), ['tiny', 'tiny.lay', 'none'], 'layout', None),
    (('-p', '--pacman'), ['KeyboardAgent2', 'Mine', 'Nobody'], 'pacman', None),
    (('-t', '--textGraphics'), None, 'text', None),
    (('-q', '--quietTextGraphics'), None, 'quiet', None),
    (('-g', '--ghosts'), ['DirectionalGhost', 'Mine', 'Nobody'], 'ghosts', None),
    (('-k', '--numghosts'), ['2', '0'], 'number', int),
    (('-z', '--zoom'), ['2', '0.5'], 'zoom', float),
    (('-f', '--fixRandomSeed'), None, 'seed', None),
    (('-r', '--recordActions'), None, 'record', None),
    (('-a', '--agentArgs'), ['x=1,y', 'numTraining=7'], 'options', None),
    (('-x', '--numTraining'), ['2', '0'], 'numTraining', int),
    (('--frameTime',), ['0', '-2.5'], 'frameTime', float),
    (('-c', '--catchExceptions'), None, 'catchExceptions', None),
    (('--timeout',), ['5', '0'], 'timeout', int),
]


def world(S):
    """a scratch directory with two boards, an own agent module, a recorded random.seed"""
    fake = Fake(S)
    d = scratch()
    os.makedirs(d + '/layouts', exist_ok=True)
    for n, t in (('mediumClassic', '%%%%%\n%P.G%\n%%%%%'), ('tiny', '%%%%\n%P.%\n%%%%')):
        with open(f'{d}/layouts/{n}.lay', 'w') as f:
            f.write(t)
    mine = types.ModuleType('myAgents')

    class Mine:
        def __init__(self, *a, **k):
            self.given = (a, k)
    mine.Mine = Mine
    sys.modules['myAgents'] = mine
    text = types.ModuleType('textDisplay')
    text.SLEEP_TIME = None

    class PacmanGraphics:
        pass

    class NullGraphics:
        pass
    text.PacmanGraphics, text.NullGraphics = PacmanGraphics, NullGraphics
    sys.modules['textDisplay'] = text
    import random
    seeds = []
    S.patch(random, 'seed', lambda *a: seeds.append(a))
    real_listdir = os.listdir
    S.patch(os, 'listdir', lambda p='.': ['ghostAgents.py', 'keyboardAgents.py', 'myAgents.py', 'layouts'] if p == '.' else real_listdir(p))
    S.patch(os, 'environ', {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
    S.patch(os.path, 'expandvars', lambda t: '' if t == '$PYTHONPATH' else t)
    return d, mine, text, seeds


def quietly(d, fn, *a):
    """result or the exception, in the directory d"""
    here, err, out = os.getcwd(), sys.stderr, sys.stdout
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
    try:
        os.chdir(d)
        return fn(*a)
    except (Exception, SystemExit) as e:
        return e
    finally:
        os.chdir(here)
        sys.stderr, sys.stdout = err, out
        for f in os.listdir(d):
            if f == 'layouts':
                for g in os.listdir(d + '/layouts'):
                    os.remove(f'{d}/layouts/{g}')
                os.rmdir(d + '/layouts')


def options(S):
    """any options: the arguments are what was asked for, everything else has its default"""
    d, mine, text, seeds = world(S)
    import pacman
    import ghostAgents
    import keyboardAgents
    import graphicsDisplay
    argv, want = [], {}
    n = S.choose('n', S.deep(4, 5))
    last = -1
    ks = []
    for i in range(n):
        # in the order of the list, or its reverse
        k = last + 1 + S.choose(f'o{i}', len(OPTS) - last - 1 - (n - 1 - i))
        last = k
        ks.append(k)
    if n > 1 and S.flag('reverse'):
        ks.reverse()
    for i, k in enumerate(ks):
        names, values, key, kind = OPTS[k]
        spell = names[-1] if len(names) == 1 or i % 2 else names[0]
        if values is None:
            argv.append(spell)
            want[key] = True
        else:
            v = S.pick(f'v{i}', values)
            argv += [spell, v] if not spell.startswith('--') or len(ks) > 2 else [f'{spell}={v}']
            want[key] = kind(v) if kind else v
    r = quietly(d, pacman.readCommand, argv)
    det = lambda: (argv, r)
    ghost = want.get('ghosts', 'RandomGhost')
    pac = want.get('pacman', 'KeyboardAgent')
    opts = {}
    if 'options' in want:
        opts = {'x': '1', 'y': 1} if want['options'] == 'x=1,y' else {'numTraining': '7'}
    train = want.get('numTraining', 0)
    if train > 0:
        opts.setdefault('numTraining', train)
    plain = want.get('text') or want.get('quiet')
    bad = want.get('layout') == 'none' or pac == 'Nobody' or ghost == 'Nobody' or plain and pac.startswith('Keyboard') \
        or opts and pac.startswith('Keyboard')
    if bad:
        S.check(isinstance(r, Exception), 'refused', det)
        S.cover('refused')
        return
    S.check(isinstance(r, dict), 'accepted', det)
    if not isinstance(r, dict):
        return
    S.cover('accepted')
    rows = ['%%%%', '%P.%', '%%%%'] if 'layout' in want else ['%%%%%', '%P.G%', '%%%%%']
    S.check(str(r['layout']) == '\n'.join(rows), 'layout-asked-for', det)
    if pac == 'Mine':
        S.check(type(r['pacman']) is mine.Mine and r['pacman'].given == ((), opts), 'agent-with-its-options', lambda: (argv, r['pacman'].given))
    else:
        S.check(type(r['pacman']) is getattr(keyboardAgents, pac), 'agent-asked-for', det)
    cls = mine.Mine if ghost == 'Mine' else getattr(ghostAgents, ghost)
    S.check([type(g) for g in r['ghosts']] == [cls] * want.get('number', 4)
            and [g.given[0][0] if ghost == 'Mine' else g.index for g in r['ghosts']] == list(range(1, want.get('number', 4) + 1)),
            'ghosts-asked-for', det)
    if want.get('quiet'):
        S.check(type(r['display']) is text.NullGraphics, 'quiet-display', det)
    elif want.get('text'):
        S.check(type(r['display']) is text.PacmanGraphics and text.SLEEP_TIME == want.get('frameTime', 0.1), 'text-display', det)
    else:
        g = r['display']
        S.check(type(g) is graphicsDisplay.PacmanGraphics and g.zoom == want.get('zoom', 1.0) and g.frameTime == want.get('frameTime', 0.1)
                and not g.capture, 'graphics-display', det)
    S.check(seeds == ([('cs188',)] if want.get('seed') else []), 'random-seed-fixed-if-asked', lambda: (argv, seeds))
    S.check(r['numGames'] == want.get('numGames', 1) and r['timeout'] == want.get('timeout', 30), 'numbers-asked-for', det)
    S.check(bool(r['record']) == bool(want.get('record')) and bool(r['catchExceptions']) == bool(want.get('catchExceptions')), 'switches', det)
    S.check(r.get('numTraining', 0) == train, 'training-games', det)
    S.check(set(r) - {'numTraining'} == {'layout', 'pacman', 'ghosts', 'display', 'numGames', 'record', 'catchExceptions', 'timeout'},
            'arguments-of-runGames', det)


options.covers = ('accepted', 'refused')


def wrong(S):
    """what is not understood is refused"""
    d, mine, text, seeds = world(S)
    import pacman
    good = S.pick('good', [[], ['-n', '2'], ['-c']])
    bad = S.pick('bad', [['-n', 'x'], ['-n', '1.5'], ['-z', 'x'], ['--timeout', ''], ['-k', 'two'], ['--no-such-option'], ['-y'], ['word'],
                         ['-l'], ['-c', 'word']])
    argv = good + bad if S.flag('after') and bad != ['-l'] or not good else bad + good if bad != ['-l'] else good + bad
    r = quietly(d, pacman.readCommand, argv)
    S.check(isinstance(r, (Exception, SystemExit)) and (not isinstance(r, SystemExit) or r.code), 'not-understood-refused', lambda: (argv, r))


def demo(S):
    """the configuration of the demo is complete"""
    d, mine, text, seeds = world(S)
    import demo as dm
    import ghostAgents
    import keyboardAgents
    import graphicsDisplay
    r = quietly(d, dm._build_configuration)
    S.check(isinstance(r, dict) and str(r['layout']) == '%%%%%\n%P.G%\n%%%%%' and type(r['pacman']) is keyboardAgents.KeyboardAgent
            and [(type(g), g.index) for g in r['ghosts']] == [(ghostAgents.RandomGhost, 1), (ghostAgents.RandomGhost, 2)]
            and type(r['display']) is graphicsDisplay.PacmanGraphics and r['numGames'] == 1 and not r['record'], 'demo-configuration', lambda: r)
    with_args = []
    import pacman
    for m in (dm, pacman):
        S.patch(m, 'runGames', lambda **k: with_args.append(k))
    d2 = world(S)[0]
    quietly(d2, dm.main)
    S.check(len(with_args) == 1 and set(with_args[0]) == set(r), 'demo-runs-its-configuration', lambda: with_args)


def all_at_once(S):
    """every option at once, in any of some orders, for an own agent"""
    d, mine, text, seeds = world(S)
    import pacman
    import graphicsDisplay
    parts = [['-n', '3'], ['--layout', 'tiny'], ['-p', 'Mine'], ['-g', 'Mine'], ['--numghosts', '6'], ['-z', '2'], ['-f'], ['-r'],
             ['-a', 'x=1,y'], ['-x', '2'], ['--frameTime', '0'], ['-c'], ['--timeout', '5']]
    show = S.pick('show', [[], ['-t'], ['-q'], ['-q', '-t']])
    turn = S.choose('turn', len(parts))
    parts = parts[turn:] + parts[:turn]
    if S.flag('reverse'):
        parts.reverse()
    argv = [w for p in parts for w in p] + show
    r = quietly(d, pacman.readCommand, argv)
    det = lambda: (argv, r)
    S.check(isinstance(r, dict), 'accepted', det)
    S.check(r['numGames'] == 3 and r['timeout'] == 5 and r['numTraining'] == 2 and r['record'] and r['catchExceptions'] and seeds == [('cs188',)],
            'numbers-asked-for', det)
    S.check(r['pacman'].given == ((), {'x': '1', 'y': 1, 'numTraining': 2}), 'agent-with-its-options', det)
    S.check([g.given for g in r['ghosts']] == [((i,), {}) for i in range(1, 7)], 'ghosts-asked-for', det)
    g = r['display']
    if '-q' in show:
        S.check(type(g) is text.NullGraphics, 'quiet-display', det)
    elif show:
        S.check(type(g) is text.PacmanGraphics and text.SLEEP_TIME == 0, 'text-display', det)
    else:
        S.check(type(g) is graphicsDisplay.PacmanGraphics and g.zoom == 2 and g.frameTime == 0, 'graphics-display', det)


SCENARIOS = {'options': options, 'wrong': wrong, 'demo': demo, 'all_at_once': all_at_once}
