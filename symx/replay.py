"""Concrete replay on the unmodified code of /repo. Runs under the repository's own interpreter.

usage: replay.py BATCH.json  -> prints one JSON line per case
A case: {"prop": module, "scenario": name, "inputs": {...}, "salt": n, "tier": t}
"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')
PYROOT = os.path.join(REPO, 'Python', 'research')

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(PYROOT, 'scripts', 'demo'))
sys.path.insert(0, PYROOT)
sys.path.insert(0, ROOT)

import symx.stubs as stubs  # noqa: E402
from symx.api import ConcS, Skipped  # noqa: E402

stubs.install()
DEMO_MODULES = {'util', 'game', 'pacman', 'layout', 'ghostAgents', 'keyboardAgents', 'demo',
                'graphicsDisplay', 'graphicsUtils'}


def purge():
    for k in [k for k in sys.modules if k == 'scripts' or k.startswith('scripts.') or k in DEMO_MODULES]:
        del sys.modules[k]


def run_case(case):
    purge()
    stubs.reset()
    mod = importlib.import_module('props.' + case['prop'])
    fn = mod.SCENARIOS[case['scenario']]
    s = ConcS(case['inputs'], case.get('salt', 0), case.get('tier', 'quick'))
    out = {'skipped': False}
    try:
        fn(s)
    except Skipped:
        out['skipped'] = True
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb][-5:]
        s.failures.append(('no-unexpected-exception', f'{type(e).__name__}: {str(e)[:300]} at {where}'))
    finally:
        s.restore()
    out['failures'] = [list(f) for f in s.failures]
    return out


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    real_out = os.fdopen(os.dup(1), 'w')
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    for case in cases:
        r = run_case(case)
        real_out.write(json.dumps(r) + '\n')
        real_out.flush()


if __name__ == '__main__':
    main()
