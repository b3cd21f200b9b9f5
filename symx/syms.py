"""Symbolic implementation of the harness interface"""
import z3

from . import engine as E
from .api import BaseS, _show, close


class SymS(BaseS):
    symbolic = True

    def __init__(self, c, max_violations=4):
        self.c = c
        self.tier = c.tier
        self.max_violations = max_violations

    # ---------------------------------------------------------------- inputs
    def _reg(self, name, kind, expr, meta=None):
        if name in self.c.inputs:
            raise E.HarnessError(f'input {name} declared twice')
        self.c.inputs[name] = (kind, expr, meta)
        self.c.order.append(name)

    def _bounds(self, v, lo, hi, lo_open=False, hi_open=False):
        if lo is not None:
            self.c.add(v > lo if lo_open else v >= lo)
        if hi is not None:
            self.c.add(v < hi if hi_open else v <= hi)
        self.c.model = None

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._reg(name, 'int', v)
        self._bounds(v, lo, hi)
        return E.SymNum(self.c.new_var(v, E.INT, lo, hi), E.ONE, True)

    def real(self, name, lo=None, hi=None, hi_open=False, lo_open=False):
        v = z3.Real(name)
        self._reg(name, 'real', v)
        self._bounds(v, lo, hi, lo_open, hi_open)
        if lo is not None and lo == 0 and not lo_open:
            plo = 0
        else:
            plo = lo
        if lo is not None and lo == 0 and lo_open:
            plo = 1e-300   # only its sign is used
        return E.SymNum(self.c.new_var(v, E.REAL, plo, hi), E.ONE, False)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, 'bool', v)
        return E.SymBool(v)

    def flag(self, name):
        """a boolean whose two values are two paths"""
        v = z3.Bool(name)
        self._reg(name, 'bool', v)
        return self.c.decide(v)

    def choose(self, name, n):
        v = z3.Int(name)
        self._reg(name, 'int', v)
        if n <= 0:
            raise E.PathAbort()
        self.c.add(v >= 0)
        self.c.add(v < n)
        self.c.model = None
        if n == 1:
            return 0
        # the variable is fresh, every value of its range is feasible on a feasible path
        k = self.c.pick(n)
        self.c.add(v == k)
        return k

    def atom(self, name, sort=None, distinct=False, among=None):
        """A symbolic name. Whether it equals an earlier name of the sort is decided by the solver, here."""
        c = self.c
        sort = sort or 'atom'
        v = z3.Int('code!' + name)
        reps = c.atoms.setdefault(sort, [])
        if distinct:
            for r in reps:
                c.add(v != r.code)
            c.model = None
        else:
            for r in reps:
                if c.decide(v == r.code):
                    a = E.Atom(str.__str__(r.rep), r.rep, sort, r.code)
                    self._reg(name, 'atom', v, a)
                    return a
        rep = f'{sort}_{len(reps)}'
        a = E.Atom(rep, rep, sort, v)
        reps.append(a)
        self._reg(name, 'atom', v, a)
        return a

    # ---------------------------------------------------------------- assertions
    def assume(self, cond):
        if isinstance(cond, E.SymBool):
            e = cond.e
            c = self.c
            c.stats.decisions += 1
            c.add(e)
            c.model = None
            if c.pos >= len(c.prefix):
                c.get_model()
            return
        if not cond:
            raise E.PathAbort()

    def check(self, cond, label, detail=None):
        c = self.c
        c.stats.checks += 1
        c.stats.check_labels[label] = c.stats.check_labels.get(label, 0) + 1
        if isinstance(cond, E.SymBool):
            e = cond.e
            c.stats.checks_solver += 1
            r = c.check_sat(z3.Not(e))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                c.stats.unknown_checks += 1
                c.note(f'assertion {label} not decided within the solver timeout')
                return
            self._violation(label, c.solver.model() if c.last_model is None else c.last_model, detail)
            c.add(e)
            c.model = None
            c.get_model()
            return
        if not cond:
            # the path condition is feasible: a model of it is the counterexample
            self._violation(label, c.get_model(), detail)

    def _violation(self, label, model, detail):
        c = self.c
        if len(c.violations) < self.max_violations:
            c.violations.append({'label': label, 'inputs': self.values(model), 'detail': _show(detail)})

    def eq(self, a, b, label, detail=None):
        self.check(self.same(a, b), label, (a, b) if detail is None else detail)

    def same(self, a, b):
        if isinstance(a, (E.SymNum, E.SymBool)) or isinstance(b, (E.SymNum, E.SymBool)):
            return a == b
        return close(a, b)

    def cover(self, label):
        self.c.stats.covers[label] = self.c.stats.covers.get(label, 0) + 1

    # ---------------------------------------------------------------- environment
    def orders(self, budget=2, max_size=3, where=None):
        """The next `budget` iterations over sets (size <= max_size, in functions whose site contains one of `where`)
        may run in any order"""
        c = self.c
        c.order_budget = budget
        c.order_max = max_size
        c.order_filter = (lambda s: any(w in s for w in where)) if where else None

    def hash_orders(self, n, collide=False):
        """n different hash seeds of the names (the layout of every set and dict of the code follows it), and with
        `collide` also names which all have the same hash"""
        if self.c.atoms:
            raise E.HarnessError('hash_orders must come first')
        k = self.choose('hash_seed', n + 1 if collide else n)
        if k == n:
            self.c.collide = True
        else:
            self.c.salt = k

    def text_tokens(self):
        self.c.text_mode = 'token'

    def pred(self, fn):
        """evaluate a boolean function without branching: not supported symbolically, plain call"""
        return fn()

    # ---------------------------------------------------------------- models
    def values(self, m):
        out = {}
        c = self.c
        ones = {}
        for name in c.order:
            kind, e, meta = c.inputs[name]
            if kind == 'atom':
                falsy = meta.rep in c.falsy_asked and E.z3_value(m.eval(meta.code, model_completion=True)) == 0
                d = {'rep': meta.rep, 'falsy': bool(falsy)}
                if meta.rep in c.txt_vars:
                    t = m.eval(c.txt_vars[meta.rep][0], model_completion=True)
                    d['txt'] = t.as_string()
                    if d['txt'] == '1':
                        first = ones.setdefault(meta.sort, meta.rep)
                        d['int'] = first == meta.rep
                out[name] = {'k': 'atom', 'v': d}
            elif kind == 'bool':
                out[name] = {'k': 'bool', 'v': z3.is_true(m.eval(e, model_completion=True))}
            else:
                f = E.z3_value(m.eval(e, model_completion=True))
                out[name] = {'k': kind, 'v': int(f) if kind == 'int' else [f.numerator, f.denominator]}
        return out
