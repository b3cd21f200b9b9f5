"""Exhaustive exploration of the feasible paths of a scenario, on all cores"""
import multiprocessing as mp
import os
import queue
import sys
import traceback
from time import time as now

from . import engine as E
from . import instrument
from . import stubs
from .syms import SymS


FIRST = bool(os.environ.get('SYMX_FIRST'))    # used when planted bugs are tried: a few counterexamples are enough


class Result:
    def __init__(self):
        self.stats = E.Stats()
        self.violations = []
        self.exhausted = True
        self.samples = []          # inputs of passing paths
        self.executed = set()
        self.limits = []           # engine limits met on some path (inconclusive)
        self.leftover = 0


def run_path(fn, prefix, stats, deadline, tier):
    """Execute one path; returns (ctx, outcome)"""
    instrument.purge()
    stubs.reset()
    c = E.PathCtx(prefix, stats, deadline, tier)
    E.set_ctx(c)
    s = SymS(c)
    outcome = 'done'
    try:
        fn(s)
    except E.PathAbort:
        outcome = 'abort'
    except E.PathBudget:
        outcome = 'budget'
    except E.Diverges:
        outcome = 'diverges'
    except RecursionError as e:
        outcome = 'crash'
        c.crash = e
    except (Exception, SystemExit) as e:
        outcome = 'crash'
        c.crash = e
    finally:
        s.restore()
    if outcome == 'diverges':
        try:
            s._violation('terminates', c.get_model(), f'no end after {c.steps} steps and {len(c.trace)} decisions')
        except E.SxControl:
            outcome = 'abort'
    if outcome == 'crash':
        try:
            tb = traceback.extract_tb(c.crash.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb][-5:]
            s._violation('no-unexpected-exception', c.get_model(),
                         f'{type(c.crash).__name__}: {str(c.crash)[:300]} at {where}')
        except E.SxControl:
            outcome = 'abort'
    return c, s, outcome


def worker(fn, tier, tasks, results, slice_s, deadline, sample_every):
    stats_total = E.Stats()
    n = 0
    while True:
        try:
            t = tasks.get()
        except (EOFError, OSError):
            return
        if t is None:
            return
        stack = [t]
        stats = E.Stats()
        vio, samples, limits = [], [], []
        instrument.EXECUTED.clear()
        t_end = min(now() + slice_s, deadline)
        timeout = False
        while stack:
            if now() > t_end:
                break
            p = stack.pop()
            try:
                c, s, out = run_path(fn, p, stats, deadline, tier)
            except BaseException as e:   # an engine error, never silent
                limits.append('ENGINE-ERROR: ' + ''.join(traceback.format_exception_only(type(e), e))[:400])
                if isinstance(e, KeyboardInterrupt):
                    return
                continue
            stack.extend(c.frontier)
            if out == 'abort':
                stats.aborted += 1
            elif out == 'budget':
                stats.budget_paths += 1
                if now() >= deadline:
                    stack.append(p)
                    break
            else:
                stats.paths += 1
            if c.violations:
                vio.extend(c.violations)
            elif out == 'done':
                n += 1
                if n % sample_every == 1 or sample_every == 1:
                    try:
                        samples.append(s.values(c.get_model()))
                    except E.SxControl:
                        pass
        results.put((os.getpid(), stats.as_dict(), vio[:20], len(vio), stack, samples[:3], limits[:5],
                     set(instrument.EXECUTED)))


def explore(fn, tier, budget_s, workers=8, max_samples=40, slice_s=0.4):
    """All feasible paths of fn, within budget_s seconds"""
    res = Result()
    t0 = now()
    deadline = t0 + budget_s
    # a short sequential start: small scenarios never pay for the workers
    stack = [[]]
    stats = res.stats
    nviol = 0
    solo = t0 + min(0.6, budget_s)
    k = 0
    while stack and now() < solo and not (FIRST and nviol > 7):
        p = stack.pop()
        c, s, out = run_path(fn, p, stats, deadline, tier)
        stack.extend(c.frontier)
        if out == 'abort':
            stats.aborted += 1
        elif out == 'budget':
            stats.budget_paths += 1
        else:
            stats.paths += 1
        if c.violations:
            res.violations.extend(c.violations)
            nviol += len(c.violations)
        elif out == 'done':
            k += 1
            if (k & (k - 1)) == 0 or k % 17 == 0:
                try:
                    res.samples.append(s.values(c.get_model()))
                except E.SxControl:
                    pass
    res.executed |= instrument.EXECUTED
    if not stack or FIRST and nviol > 7:
        res.exhausted = not stack
        res.samples = res.samples[:max_samples]
        return res
    ctxm = mp.get_context('fork')
    tasks, results = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=worker, args=(fn, tier, tasks, results, slice_s, deadline, 23), daemon=True)
             for _ in range(workers)]
    for p in procs:
        p.start()
    pending = 0
    try:
        while stack or pending:
            while stack and pending < workers * 2 and now() < deadline:
                tasks.put(stack.pop(0))   # shallow prefixes first: the largest subtrees
                pending += 1
            if pending == 0:
                break
            try:
                pid, st, vio, nv, left, samples, limits, ex = results.get(timeout=5)
            except queue.Empty:
                dead = [p for p in procs if not p.is_alive()]
                if dead:
                    res.limits.append(f'{len(dead)} worker(s) ended (exit codes {[p.exitcode for p in dead]})')
                    res.exhausted = False
                    if len(dead) == len(procs) or now() > deadline + 30:
                        break
                if now() > deadline + 60:
                    res.limits.append('workers did not return in time')
                    res.exhausted = False
                    break
                continue
            pending -= 1
            stats.merge(st)
            nviol += nv
            if len(res.violations) < 400:
                res.violations.extend(vio)
            stack.extend(left)
            if len(res.samples) < max_samples * 4:
                res.samples.extend(samples)
            res.limits.extend(limits)
            res.executed |= ex
            if deadline and (nviol > 2000 and now() - t0 > 10 or FIRST and nviol > 7):
                # the property is broken on many paths: enough counterexamples to replay
                res.exhausted = False
                res.limits.append('exploration stopped early: many counterexamples')
                deadline = 0
    finally:
        for _ in procs:
            tasks.put(None)
        for p in procs:
            p.join(timeout=2)
            if p.is_alive():
                p.terminate()
    res.leftover = len(stack) + pending
    if stack or pending:
        res.exhausted = False
    step = max(1, len(res.samples) // max_samples)
    res.samples = res.samples[::step][:max_samples]
    return res
