"""Decides one property: explores its scenarios symbolically, replays counterexamples, writes the evidence.

usage: run.py PROPERTY [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION (reproduced on the real code); 2: error of the check
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from symx import engine as E  # noqa: E402
from symx import explore as X  # noqa: E402
from symx import instrument as I  # noqa: E402
from symx import stubs  # noqa: E402

REPLAY_PY = '/opt/venv/bin/python'
EVID = os.environ.get('SYMX_EVID') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS')


def load_known(pid):
    """lines `known: property=<id> key=<scenario>/<label> <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    parts = line.split(None, 3)
                    if parts[1] == f'property={pid}':
                        out[parts[2][len('key='):]] = parts[3]
    return out


def replay_batch(cases, hashseed, timeout=300):
    py = REPLAY_PY if os.path.exists(REPLAY_PY) else sys.executable
    fd, path = tempfile.mkstemp(suffix='.json', prefix='symx_')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(cases, f)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run([py, '-B', os.path.join(HERE, 'replay.py'), path], capture_output=True, text=True,
                               env=env, timeout=timeout, cwd=tempfile.gettempdir())
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b''
            out = out.decode() if isinstance(out, bytes) else out
            rs = [json.loads(l) for l in out.splitlines() if l.startswith('{')]
            return rs, 'timeout'
        rs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
        if len(rs) != len(cases):
            return rs, f'replay ended early (exit {p.returncode}): {p.stderr[-600:]}'
        return rs, None
    finally:
        os.unlink(path)


def source_digest():
    h = hashlib.sha256()
    base = os.path.join(I.PYROOT, 'scripts')
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()[:16]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    I.install()
    stubs.install()
    mod_name = pid.lower()
    mod = importlib.import_module('props.' + mod_name)
    scenarios = mod.SCENARIOS
    quick_s, thorough_s = getattr(mod, 'BUDGET', (480, 780))
    total = quick_s if tier == 'quick' else thorough_s
    total = float(os.environ.get('SYMX_BUDGET', total))
    names = [n for n in scenarios if not only or n in only]
    known = load_known(pid)
    workers = int(os.environ.get('SYMX_WORKERS', os.cpu_count() or 4))

    agg = E.Stats()
    per, candidates, samples, executed, inconclusive, vacuous = {}, [], [], set(), [], []
    t_end = t0 + total
    for i, n in enumerate(names):
        left = max(3.0, t_end - time.time())
        share = left * getattr(scenarios[n], 'weight', 1.0) / sum(
            getattr(scenarios[m], 'weight', 1.0) for m in names[i:])
        share = max(share, 0.4 * left)
        # a scenario may use what the rest is not expected to need, never less than its share
        cap = getattr(scenarios[n], 'cap_s', None)
        ts = time.time()
        r = X.explore(scenarios[n], tier, min(share, cap) if cap else share, workers=workers)
        st = r.stats.as_dict()
        agg.merge(st)
        executed |= r.executed
        per[n] = {'paths': st['paths'], 'aborted_by_assumption': st['aborted'], 'solver_queries': st['queries'],
                  'assertions_checked': st['checks'], 'exhausted': r.exhausted, 'unexplored_prefixes': r.leftover,
                  'budget_paths': st['budget_paths'], 'wall_s': round(time.time() - ts, 2),
                  'covers': st['covers']}
        if os.environ.get('SYMX_VERBOSE'):
            print(n, per[n], r.limits[:3], st['notes'], flush=True)
        for v in r.violations:
            candidates.append(dict(v, scenario=n))
        if X.FIRST and any(f"{n}/{v['label']}" not in known for v in r.violations):
            break
        for s in r.samples:
            samples.append({'prop': mod_name, 'scenario': n, 'inputs': s, 'salt': 0, 'tier': tier})
        for l in r.limits:
            inconclusive.append(f'{n}: {l}')
        if st['unknown_checks'] or st['unknown_branches']:
            inconclusive.append(f"{n}: {st['unknown_checks']} assertion(s) and {st['unknown_branches']} branch(es) "
                                f"not decided within the solver timeout")
        need = getattr(scenarios[n], 'covers', ())
        missing = [c for c in need if not st['covers'].get(c)]
        if (st['checks'] == 0 or missing) and not r.violations:
            vacuous.append(f'{n}: checks={st["checks"]} uncovered={missing}')

    # ------------------------------------------------------------------ replay of counterexamples
    groups = {}
    for c in candidates:
        groups.setdefault((c['scenario'], c['label']), []).append(c)
    confirmed, unreproduced = {}, []
    for (scn, label), cs in sorted(groups.items()):
        step = max(1, len(cs) // 8)
        cs = cs[::step][:8]
        hit = None
        for hashseed in (0, 1, 2, 3, 5, 8, 13, 21):
            cases = [{'prop': mod_name, 'scenario': scn, 'inputs': c['inputs'], 'salt': salt, 'tier': tier}
                     for c in cs for salt in range(0, 4 if hashseed == 0 else 10)]
            rs, err = replay_batch(cases, hashseed, 45 if label == 'terminates' else 300)
            for case, r in zip(cases, rs):
                fs = r['failures']
                if fs:
                    pref = [f for f in fs if f[0] == label]
                    f = (pref or fs)[0]
                    hit = (case, hashseed, f, fs)
                    if pref:
                        break
            if hit is None and err and len(rs) < len(cases):
                # the real code does not come back on this input (or kills the interpreter)
                hit = (cases[len(rs)], hashseed, (label, err), [])
            if hit:
                break
        if hit:
            confirmed[(scn, hit[2][0])] = hit
        elif label == 'no-unexpected-exception':
            # the proxies met an operation they do not model: those paths are not decided, nothing more
            inconclusive.append(f'{scn}: paths not decided, engine limit: {cs[0]["detail"][:300]}')
        else:
            unreproduced.append((scn, label, cs[0]))

    # ------------------------------------------------------------------ validation of the encoding on passing paths
    validated, mism = 0, []
    if samples:
        rnd = random.Random(seed)
        if len(samples) > 240:
            samples = rnd.sample(samples, 240)
        rs, err = replay_batch(samples, 0, timeout=240)
        for case, r in zip(samples, rs):
            if r['failures']:
                lab = r['failures'][0][0]
                key = (case['scenario'], lab)
                if key not in confirmed:
                    mism.append(key)
                    confirmed[key] = (case, 0, r['failures'][0], r['failures'])
            else:
                validated += 1
        if err:
            inconclusive.append('validation replay: ' + err)

    # ------------------------------------------------------------------ verdict
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replays')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(EVID, 'replays', f))
    violations = 0
    printed = set()
    lines = []
    for n, ((scn, label), (case, hs, f, fs)) in enumerate(sorted(confirmed.items(), key=lambda kv: kv[0])):
        key = f'{scn}/{label}'
        if key in known:
            if key not in printed:
                lines.append(f'KNOWN-FINDING: property={pid} {known[key]}')
                printed.add(key)
            continue
        violations += 1
        path = os.path.join(EVID, 'replays', f'{pid}-{n}.json')
        with open(path, 'w') as fh:
            json.dump([dict(case)], fh, indent=1)
        with open(path[:-5] + '.txt', 'w') as fh:
            fh.write(f'property {pid}, scenario {scn}, assertion {label}\n{f[1]}\n'
                     f'replay: PYTHONHASHSEED={hs} {REPLAY_PY} {HERE}/replay.py {path}\n')
        lines.append(f'VIOLATION property={pid} replay={path}')
        lines.append(f'  scenario={scn} assertion={label} detail={f[1][:400]}')

    exhausted = all(p['exhausted'] for p in per.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': agg.paths,
            'transitions': agg.decisions,
            'traces_validated_against_impl': validated,
            'samples': [{'scenario': s['scenario'],
                         'inputs': {k: v['v'] if v['k'] != 'atom' else v['v']['rep'] for k, v in s['inputs'].items()}}
                        for s in samples[:4]] or [{'scenario': n} for n in names[:1]],
            'exhaustive': exhausted and not inconclusive and not unreproduced and not agg.approximations and not agg.budget_paths,
            'rule': 'states = feasible symbolic paths of the real code run to the end, transitions = branch decisions '
                    'on symbolic values taken on them (solver-decided or implied), each path stands for all inputs '
                    'satisfying its path condition',
            'solver': {'name': 'z3 ' + __import__('z3').get_version_string(), 'queries': agg.queries, 'sat': agg.sat,
                       'unsat': agg.unsat, 'unknown': agg.unknown, 'solver_s': round(agg.solver_s, 2),
                       'assertions_checked': agg.checks, 'assertions_sent_to_solver': agg.checks_solver},
            'functions_encoded': sorted(executed),
            'scenarios': per,
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('all', '')),
            'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
            'assertion_labels': agg.check_labels,
            'inconclusive': inconclusive,
            'notes': agg.notes,
            'source_digest': source_digest(),
            'counterexamples_not_reproduced': [f'{a}/{b}' for a, b, _ in unreproduced],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for l in lines:
        print(l)
    print(f'{pid} {tier}: paths={agg.paths} decisions={agg.decisions} queries={agg.queries} '
          f'checks={agg.checks} validated={validated} exhausted={exhausted} wall={ev["wall_s"]}s')
    for s in inconclusive[:10]:
        print('INCONCLUSIVE', s)
    if violations:
        return 1
    if unreproduced:
        # the encoding over-approximates here (say an iteration order no hash seed gave): nothing is claimed about it
        for scn, label, c in unreproduced[:5]:
            print(f'INCONCLUSIVE counterexample of {scn}/{label} does not reproduce on the real code: '
                  f'{c["detail"][:500]}')
        if os.environ.get('SYMX_STRICT'):
            return 2
    strict = bool(os.environ.get('SYMX_STRICT'))
    if any('ENGINE-ERROR' in x for x in inconclusive) and (strict or not agg.checks):
        print('ERROR of the engine')
        return 2
    if vacuous:
        # a scenario which the engine could not follow decides nothing; the others still give their answer.
        # When nothing at all was decided there is no answer.
        limited = all(not per[v.split(':')[0]]['exhausted'] or any(i.startswith(v.split(':')[0] + ':') for i in inconclusive)
                      for v in vacuous)
        if strict or not limited or len(vacuous) == len(names):
            print('ERROR vacuous scenario: ' + '; '.join(vacuous))
            return 2
        print('INCONCLUSIVE scenario without a decided assertion: ' + '; '.join(vacuous))
    return 0


COMMON_ASSUMPTIONS = [
    'floats are exact reals in the symbolic run; replays on the real code compare with relative tolerance 1e-9',
    'names of variables, values and relations are opaque hashable objects with ordinary equality',
    'pyvis Network is a recording stand-in (both in the symbolic run and in replays)',
]

if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
