"""Mutation campaign: which small changes of the code that pass the tests do the checks miss?

python3 tools/mutate.py FILE... [-j N] [-o OUT] [--sample K] [--only LINE,LINE]
Every mutant lives in a scratch copy under /tmp; not part of any registered check."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYR = 'Python/research/scripts/'
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Mult]}
CALLSWAP = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sorted': 'list'}
ATTRSWAP = {'keys': 'values', 'values': 'keys', 'union': 'intersection', 'intersection': 'union', 'append': None,
            'is_included': None, 'difference': 'union', 'issubset': 'issuperset'}


def mutants(src):
    """yields (lineno, description, new source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        parents[x] = (n, f, i)
            elif isinstance(v, ast.AST):
                parents[v] = (n, f, None)
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(n.body[0])

    def infunc(n):
        while n in parents:
            n = parents[n][0]
            if isinstance(n, ast.FunctionDef):
                return True
        return False

    def skip(n):
        """messages of assertions and exceptions, annotations"""
        m = n
        while m in parents:
            p, f, _ = parents[m]
            if isinstance(p, ast.Assert) and f == 'msg' or isinstance(p, ast.Raise) or f in ('annotation', 'returns'):
                return True
            m = p
        return False

    def emit(n, new, what):
        p, f, i = parents[n]
        old = getattr(p, f) if i is None else getattr(p, f)[i]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new
        try:
            ast.fix_missing_locations(tree)
            s = ast.unparse(tree)
        finally:
            if i is None:
                setattr(p, f, old)
            else:
                getattr(p, f)[i] = old
        return (getattr(n, 'lineno', 0), what, s)

    for n in nodes:
        if not infunc(n) or n in docs or parents.get(n, (None,))[0] in docs or skip(n):
            continue
        u = ast.unparse(n) if hasattr(n, 'lineno') else ''
        u = u.replace('\n', ' ')[:90]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.copy(n)
                m.ops = [o()]
                yield emit(n, m, f'{u} -> {ast.unparse(m)}'[:160])
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                m = copy.copy(n)
                m.op = o()
                yield emit(n, m, f'{u} -> {type(o()).__name__}')
        if isinstance(n, ast.AugAssign):
            m = copy.copy(n)
            m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            yield emit(n, m, f'{u} -> sign')
            yield emit(n, ast.Pass(), f'del {u}')
        if isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield emit(n, m, f'{u} -> and/or')
            for k in range(len(n.values)):
                vs = n.values[:k] + n.values[k + 1:]
                yield emit(n, vs[0] if len(vs) == 1 else ast.BoolOp(n.op, vs), f'{u} -> without part {k}')
        if isinstance(n, ast.UnaryOp):
            yield emit(n, n.operand, f'{u} -> drop {type(n.op).__name__}')
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                yield emit(n, ast.Constant(not n.value), f'{u} -> {not n.value} in {ast.unparse(parents[n][0])[:80]!r}')
            else:
                yield emit(n, ast.Constant(n.value + 1), f'{u} -> +1 in {ast.unparse(parents[n][0])[:80]!r}')
                if n.value:
                    yield emit(n, ast.Constant(0), f'{u} -> 0 in {ast.unparse(parents[n][0])[:80]!r}')
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(parents[n][0], ast.JoinedStr):
            yield emit(n, ast.Constant(n.value + 'X'), f'{u} -> string')
        if isinstance(n, ast.JoinedStr):
            yield emit(n, ast.Constant('X'), f'{u} -> string')
        if isinstance(n, ast.IfExp):
            yield emit(n, n.body, f'{u} -> body')
            yield emit(n, n.orelse, f'{u} -> orelse')
        if isinstance(n, ast.If):
            for v in (True, False):
                m = copy.copy(n)
                m.test = ast.Constant(v)
                yield emit(n, m, f'if {ast.unparse(n.test)[:90]} -> {v}')
        if isinstance(n, (ast.Assert, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield emit(n, ast.Pass(), f'del {u}')
            if isinstance(n, ast.Continue):
                yield emit(n, ast.Break(), 'continue -> break')
            if isinstance(n, ast.Break):
                yield emit(n, ast.Continue(), 'break -> continue')
        if isinstance(n, ast.Assign) and (isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            yield emit(n, ast.Pass(), f'del {u}')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield emit(n, ast.Return(ast.Constant(None)), f'{u} -> None')
        if isinstance(n, ast.comprehension) and n.ifs:
            for k in range(len(n.ifs)):
                m = copy.copy(n)
                m.ifs = n.ifs[:k] + n.ifs[k + 1:]
                l, w, s = emit(n, m, f'comprehension without if {ast.unparse(n.ifs[k])}')
                yield (n.ifs[k].lineno, w, s)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                if n.func.id in CALLSWAP:
                    m = copy.copy(n)
                    m.func = ast.Name(CALLSWAP[n.func.id])
                    if n.func.id == 'sorted':
                        m.keywords = []
                    yield emit(n, m, f'{u} -> {CALLSWAP[n.func.id]}')
                if n.func.id in ('set', 'frozenset', 'dict', 'list', 'abs', 'int', 'float', 'sorted', 'str', 'sum') and len(n.args) == 1:
                    yield emit(n, n.args[0], f'{u} -> bare argument')
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in ('copy', 'deepCopy') and not n.args:
                    yield emit(n, n.func.value, f'{u} -> no copy')
                if ATTRSWAP.get(n.func.attr):
                    m = copy.copy(n)
                    m.func = ast.Attribute(n.func.value, ATTRSWAP[n.func.attr])
                    yield emit(n, m, f'{u} -> {ATTRSWAP[n.func.attr]}')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.copy(n)
                m.args = n.args[::-1]
                yield emit(n, m, f'{u} -> swapped arguments')
            for k in range(len(n.keywords)):
                m = copy.copy(n)
                m.keywords = n.keywords[:k] + n.keywords[k + 1:]
                yield emit(n, m, f'{u} -> without {n.keywords[k].arg}')
        if isinstance(n, ast.Slice):
            for f in ('lower', 'upper'):
                if getattr(n, f) is not None:
                    m = copy.copy(n)
                    setattr(m, f, None)
                    yield emit(n, m, f'slice {u} -> without {f}')
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(getattr(n, 'ctx', None), ast.Load):
            m = copy.copy(n)
            m.elts = n.elts[::-1]
            yield emit(n, m, f'{u} -> swapped')


def owner(src, line):
    """qualified name of the function around a line"""
    best = None

    def go(n, q):
        nonlocal best
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if c.lineno <= line <= c.end_lineno:
                    qq = q + [c.name]
                    if isinstance(c, ast.FunctionDef):
                        best = '.'.join(qq)
                        return
                    go(c, qq)
    go(ast.parse(src), [])
    return best


def evidence():
    """function -> properties which execute it (most specific first: fewest functions)"""
    out, size = {}, {}
    for f in os.listdir(ROOT + '/evidence'):
        if f.endswith('.json'):
            d = json.load(open(f'{ROOT}/evidence/{f}'))
            fs = d['coverage'].get('functions_encoded', [])
            size[d['property']] = len(fs)
            for x in fs:
                out.setdefault(x, []).append(d['property'])
    anchors = {}
    for l in open(ROOT + '/properties.jsonl'):
        d = json.loads(l)
        anchors[d['id']] = json.dumps(d)
    return {k: sorted(v, key=lambda p: (k.split(':')[1].split('.')[-1] not in anchors.get(p, ''), size[p])) for k, v in out.items()}


def work(job):
    idx, rel, line, what, fn, src, props = job
    d = f'/tmp/mut/{os.getpid()}_{idx}'
    r = d + '/r'
    try:
        os.makedirs(r)
        subprocess.run(f'cp -a /repo/Python {r}/', shell=True, check=True)
        with open(f'{r}/{PYR}{rel}', 'w') as f:
            f.write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', BROWSER='true')
        if rel.startswith('relnet'):
            t = subprocess.run('timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider scripts/test --deselect '
                               'scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr',
                               shell=True, cwd=r + '/Python/research', env=env, capture_output=True, text=True)
            if t.returncode:
                return dict(job=[rel, line, what, fn], out='tests')
        ev = d + '/ev'
        os.makedirs(ev)
        env.update(SYMX_REPO=r, SYMX_EVID=ev, SYMX_WORKERS='1', SYMX_FIRST='1')
        notes = []
        for p in props:
            try:
                c = subprocess.run(['python3-vt', ROOT + '/symx/run.py', p], env=env, capture_output=True, text=True, timeout=1500, cwd=ROOT)
            except subprocess.TimeoutExpired:
                notes.append(p + ':timeout')
                continue
            if c.returncode == 1:
                return dict(job=[rel, line, what, fn], out='caught', by=p, notes=notes)
            if c.returncode != 0:
                notes.append(f'{p}:rc{c.returncode} {c.stdout[-200:]} {c.stderr[-200:]}')
            elif 'INCONCLUSIVE' in c.stdout:
                notes.append(f'{p}:' + c.stdout[c.stdout.index('INCONCLUSIVE'):][:200])
        return dict(job=[rel, line, what, fn], out='SURVIVED', tried=props, notes=notes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('files', nargs='+')
    a.add_argument('-j', type=int, default=8)
    a.add_argument('-o', default='/tmp/mut/out.jsonl')
    a.add_argument('--sample', type=int)
    a.add_argument('--lines')
    a.add_argument('--max-props', type=int, default=6)
    a.add_argument('--count', action='store_true')
    a.add_argument('--redo', help='results of an earlier run: only its survivors, against every check which executes the function')
    o = a.parse_args()
    ev = evidence()
    jobs = []
    redo = None
    if o.redo:
        redo = {tuple(r['job']) for r in map(json.loads, open(o.redo)) if r['out'] == 'SURVIVED'}
        o.max_props = 99
    for rel in o.files:
        src = open('/repo/' + PYR + rel).read()
        mod = 'scripts.' + rel[:-3].replace('/', '.')
        if rel.startswith('demo/'):
            mods = [mod, rel[5:-3]]
        else:
            mods = [mod]
        seen = set()
        for line, what, s in mutants(src):
            if s in seen:
                continue
            seen.add(s)
            fn = owner(src, line)
            props = next((ev[f'{m}:{fn}'] for m in mods if f'{m}:{fn}' in ev), [])
            if o.lines and not any(int(x.split('-')[0]) <= line <= int(x.split('-')[-1]) for x in o.lines.split(',')):
                continue
            if redo is not None and (rel, line, what, fn) not in redo:
                continue
            jobs.append((len(jobs), rel, line, what, fn, s, props[:o.max_props]))
    if o.sample and len(jobs) > o.sample:
        jobs = random.Random(7).sample(jobs, o.sample)
    if o.count:
        print(len(jobs), 'mutants;', sum(not j[6] for j in jobs), 'in functions no check executes:',
              sorted({str(j[4]) for j in jobs if not j[6]}))
        return
    os.makedirs('/tmp/mut', exist_ok=True)
    tot = {}
    with ThreadPoolExecutor(o.j) as ex, open(o.o, 'a') as f:
        for r in ex.map(work, [j for j in jobs if j[6]]):
            tot[r['out']] = tot.get(r['out'], 0) + 1
            f.write(json.dumps(r) + '\n')
            f.flush()
            if r['out'] == 'SURVIVED':
                print(r['job'], r['tried'], r['notes'][:2], flush=True)
    print(tot)


main()
