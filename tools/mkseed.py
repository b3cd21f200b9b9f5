"""Make, verify and try planted bugs.  python3 tools/mkseed.py make DEFS.py | verify [ID...] | try [ID...]

DEFS.py calls seed(id, property, file, old, new, needs, breaks, demo).  All work is done in a scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
SCRATCH = '/tmp/seedwork'
COPY = SCRATCH + '/r'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    if not os.path.isdir(COPY):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(f'cp -a /repo {COPY}')
    sh('git checkout -q -- . && git clean -fdq', COPY)


DEMO = '''#!/bin/bash
# exit 0: behaves as promised; not 0: broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
cd Python/research || exit 99
PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    fresh()
    edits = [(file, old, new)] if isinstance(old, str) else old
    for f, o, n in edits:
        p = os.path.join(COPY, f)
        t = open(p).read()
        assert t.count(o) == count, (id, t.count(o), o)
        open(p, 'w').write(t.replace(o, n))
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', COPY).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'written;', verify1(id))


def verify1(id):
    d = os.path.join(SEEDED, id)
    out = []
    fresh()
    r = sh(f'bash {d}/demo.sh', COPY)
    out.append('clean-demo=%d' % r.returncode)
    if r.returncode:
        out.append(r.stdout[-600:])
    a = sh(f'git apply {d}/patch.diff', COPY)
    if a.returncode:
        return 'PATCH DOES NOT APPLY ' + a.stdout
    r = sh(f'bash {d}/demo.sh', COPY)
    out.append('bug-demo=%d' % r.returncode)
    t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 BROWSER=true /opt/venv/bin/python -m pytest -q -p no:cacheprovider scripts/test 2>&1 | tail -4', COPY + '/Python/research')
    out.append(t.stdout.strip().replace('\n', ' | '))
    fresh()
    return ' '.join(out)


def try1(id, prop=None):
    d = os.path.join(SEEDED, id)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    fresh()
    a = sh(f'git apply {d}/patch.diff', COPY)
    if a.returncode:
        return 'PATCH DOES NOT APPLY'
    r = sh(f'./check {prop}', ROOT, dict(os.environ, SYMX_REPO=COPY, SYMX_EVID=SCRATCH + '/ev'))
    fresh()
    return '%s rc=%d %s' % (prop, r.returncode, '' if r.returncode == 1 else r.stdout[-1500:])


if __name__ == '__main__':
    what, args = sys.argv[1], sys.argv[2:]
    if what == 'make':
        exec(compile(open(args[0]).read(), args[0], 'exec'))
    else:
        for i in args or sorted(os.listdir(SEEDED)):
            print(i, verify1(i) if what == 'verify' else try1(i), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
