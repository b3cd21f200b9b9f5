"""symx engine: dynamic symbolic execution of the real Python code with z3.

The code under test runs natively on proxy values; every branch on a symbolic value is decided by the
solver, the feasible alternatives are queued, and the program is re-executed along each of them until
the tree of feasible paths is exhausted (or the stated budget ends).
"""
from time import time as now
from fractions import Fraction

import z3

INT = 'int'
REAL = 'real'


MAX_STEPS = 300000      # loop iterations and function entries of the code under test on one path


class SxControl(BaseException):
    """Path steering, never caught by `except Exception` of the code under test."""


class PathAbort(SxControl):
    """The path is infeasible or its assumption does not hold."""


class PathBudget(SxControl):
    """The path exceeds the per-path bound, it is reported as not explored."""


class Diverges(SxControl):
    """More steps than any intended run takes: a candidate for a run that never ends, settled by the replay."""


class HarnessError(BaseException):
    """A mistake of the harness, never a verdict"""


CTX = None  # the context of the path which is being executed


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------------------------------- polynomials

def to_frac(x):
    """Number -> exact rational; a float is read as the simple rational it approximates (reals for floats)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise OverflowError("non finite float meets a symbolic number")
        if x == int(x) and abs(x) < 2 ** 53:
            return int(x)
        f = Fraction(x).limit_denominator(100000)
        if abs(float(f) - x) <= 4e-16 * max(1.0, abs(x)):
            return f
        return Fraction(x)
    raise TypeError(type(x))


class Poly:
    """Polynomial over the symbolic numbers of the path: {monomial (sorted tuple of variable ids): coefficient}"""
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def var(i):
        return Poly({(i,): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def is_zero(self):
        return not self.t

    def as_const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()} if k else {})

    def same(self, o):
        return self.t == o.t


ONE = Poly.const(1)
ZERO = Poly.const(0)


# ----------------------------------------------------------------------------------------------- proxies

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return wrap_bool(self.e == o.e)
        if o is True or (type(o) in (int, float) and o == 1):
            return self
        if o is False or (type(o) in (int, float) and o == 0):
            return wrap_bool(z3.Not(self.e))
        if isinstance(o, SymNum):
            return self._num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrap_bool(z3.Not(r.e))

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return wrap_bool(z3.And(self.e, o.e))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return wrap_bool(z3.Or(self.e, o.e))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return wrap_bool(z3.Not(self.e)) if o else self
        if isinstance(o, SymBool):
            return wrap_bool(z3.Xor(self.e, o.e))
        return NotImplemented
    __rxor__ = __xor__

    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __float__(self):
        return float(self._num())

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o

    def __repr__(self):
        return repr(bool(self))


def wrap_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def num(x):
    """Anything numeric -> SymNum (or None)"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return num(x._num())
    if isinstance(x, (bool, int, float, Fraction)):
        try:
            return SymNum(Poly.const(to_frac(x)), ONE, isinstance(x, (bool, int)))
        except (OverflowError, ValueError):
            return None
    return None


def mk(n, d, isint):
    """Build a number, folding constants into ordinary Python numbers"""
    cn, cd = n.as_const(), d.as_const()
    if cd is not None and cd != 1:
        n = n.scale(Fraction(1) / cd)
        d = ONE
        cn = n.as_const()
        cd = 1
    if cn is not None and (cd is not None or cn == 0):
        v = Fraction(cn)
        if isint and v.denominator == 1:
            return int(v)
        return float(v)
    if n.same(d):
        return 1 if isint else 1.0
    return SymNum(n, d, isint)


class SymNum:
    """Exact rational function of the symbolic inputs"""
    __slots__ = ('n', 'd', 'isint')

    def __init__(self, n, d, isint):
        self.n = n
        self.d = d
        self.isint = isint

    # arithmetic
    def _add(self, o, sgn):
        on = o.n if sgn > 0 else o.n.neg()
        if self.d.same(o.d):
            return mk(self.n + on, self.d, self.isint and o.isint)
        return mk(self.n * o.d + on * self.d, self.d * o.d, self.isint and o.isint)

    def __add__(self, o):
        o = num(o)
        return NotImplemented if o is None else self._add(o, 1)

    def __radd__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._add(self, 1)

    def __sub__(self, o):
        o = num(o)
        return NotImplemented if o is None else self._add(o, -1)

    def __rsub__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._add(self, -1)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        o = num(o)
        if o is None:
            return NotImplemented
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if n1.same(d2):
            n1 = d2 = ONE
        if n2.same(d1):
            n2 = d1 = ONE
        return mk(n1 * n2, d1 * d2, self.isint and o.isint)

    __rmul__ = __mul__

    def __neg__(self):
        return SymNum(self.n.neg(), self.d, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __truediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else self._div(o)

    def __rtruediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._div(self)

    def _div(self, o):
        if o == 0:
            raise ZeroDivisionError("division by zero")
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if d1.same(d2):
            d1 = d2 = ONE
        if n1.same(n2):
            n1 = n2 = ONE
        return mk(n1 * d2, d1 * n2, False)

    def __floordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else self._floordiv(o)

    def __rfloordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o._floordiv(self)

    def _floordiv(self, o):
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        q = self._div(o)
        q = floor_num(num(q))
        return q if self.isint and o.isint else as_float(q)

    def __mod__(self, o):
        o = num(o)
        return NotImplemented if o is None else self - o * self._floordiv(o)

    def __rmod__(self, o):
        o = num(o)
        return NotImplemented if o is None else o - self * o._floordiv(self)

    def __divmod__(self, o):
        o = num(o)
        q = self._floordiv(o)
        return q, self - o * q

    def __pow__(self, k):
        if isinstance(k, SymNum):
            k = k.__index__()
        if isinstance(k, int) and 0 <= k <= 8:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return NotImplemented

    def __rpow__(self, b):
        return b ** self.__index__()

    # comparison
    def _cmp(self, o, op):
        o = num(o)
        if o is None:
            return None
        if self.d.same(o.d):
            p, q = self.n - o.n, self.d
        else:
            p, q = self.n * o.d - o.n * self.d, self.d * o.d
        return CTX.rel(p, q, op)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, '<')
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, '<=')
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, '>')
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, '>=')
        return NotImplemented if r is None else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return 7

    # conversions
    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize_int(self)

    def __int__(self):
        return CTX.concretize_int(num(trunc_num(self)))

    def __trunc__(self):
        return trunc_num(self)

    def __floor__(self):
        return floor_num(self)

    def __ceil__(self):
        return -floor_num(num(-self))

    def __round__(self, nd=None):
        if nd is None:
            if self.isint:
                return self
            f = floor_num(self)
            r = self - f
            if r < Fraction(1, 2):
                return f
            if r > Fraction(1, 2):
                return f + 1
            return f if f % 2 == 0 else f + 1
        if self.isint and nd >= 0:
            return self
        CTX.approx('round(x, n) read as identity')
        return self

    def __float__(self):
        return float(CTX.concretize_any(self))

    def __str__(self):
        return SymText([self])

    def __repr__(self):
        return SymText([self])

    def __format__(self, spec):
        if not spec:
            return str.__str__(SymText([self]))
        return format(float(self) if not self.isint else self.__index__(), spec)

    def is_integer(self):
        return self == floor_num(self)

    def bit_length(self):
        return self.__index__().bit_length()

    def __and__(self, o): return self.__index__() & o
    def __rand__(self, o): return o & self.__index__()
    def __or__(self, o): return self.__index__() | o
    def __ror__(self, o): return o | self.__index__()
    def __xor__(self, o): return self.__index__() ^ o
    def __rshift__(self, o): return self.__index__() >> o
    def __lshift__(self, o): return self.__index__() << o
    def __rrshift__(self, o): return o >> self.__index__()
    def __rlshift__(self, o): return o << self.__index__()
    def __invert__(self): return -self - 1

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


def as_float(x):
    if isinstance(x, SymNum):
        return SymNum(x.n, x.d, False)
    return float(x)


def floor_num(x):
    if not isinstance(x, SymNum):
        import math
        return math.floor(x)
    c = x.n.as_const()
    if c is not None and x.d.as_const() is not None:
        import math
        return math.floor(Fraction(c) / x.d.as_const())
    if x.isint:
        return x
    return CTX.floor(x)


def trunc_num(x):
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return x
    if x >= 0:
        return floor_num(x)
    return -floor_num(num(-x))


class Atom(str):
    """An opaque symbolic name (a variable, a value or a relation).

    Its only structure is identity: which atoms of a sort are equal is decided by the solver when the atom is made,
    its spelling is never inspected by the engine (the str content is a token, only used to print).
    """

    def __new__(cls, token, rep, sort, code):
        a = str.__new__(cls, token)
        a.rep = rep
        a.sort = sort
        a.code = code
        return a

    def __eq__(self, o):
        if type(o) is Atom:
            return self.rep == o.rep
        if type(o) is SymText:
            return o == self
        if isinstance(o, str):
            if o == '':
                return not bool(self)
            return False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __hash__(self):
        return CTX.atom_hash(self)

    def __bool__(self):
        CTX.falsy_asked.add(self.rep)
        return CTX.decide(self.code != 0)

    def __str__(self):
        return self

    def __repr__(self):
        return SymText(["'", self, "'"])

    def __format__(self, spec):
        return str.__format__(str.__str__(self), spec)

    def __add__(self, o):
        return SymText([self]) + o

    def __radd__(self, o):
        return SymText([o]) + self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("atoms can not be pickled")


class SymText(str):
    """A text made of literals, names and numbers; equality is decided over the texts of its parts"""

    def __new__(cls, parts):
        flat = []
        for p in parts:
            if isinstance(p, SymText):
                flat.extend(p.parts)
            elif isinstance(p, (Atom, SymNum)):
                flat.append(p)
            elif p:
                flat.append(str(p))
        out = []
        for p in flat:
            if out and type(p) is str and type(out[-1]) is str:
                out[-1] = out[-1] + p
            else:
                out.append(p)
        t = str.__new__(cls, ''.join(CTX.part_token(p) for p in out))
        t.parts = out
        return t

    def _key(self):
        return tuple((p.rep,) if isinstance(p, Atom) else p if isinstance(p, str) else ('n', p.n.key(), p.d.key())
                     for p in self.parts)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if isinstance(o, Atom):
            o = SymText([o])
        elif not isinstance(o, SymText):
            o = SymText([o])
        if self._key() == o._key():
            return True
        if CTX.text_mode == 'token':
            return str.__eq__(self, o)
        return CTX.text_eq(self.parts, o.parts)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __hash__(self):
        if CTX.text_mode == 'token':
            return str.__hash__(self)
        return 11

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText([self, o])

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText([o, self])

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__format__(str.__str__(self), spec)

    def join(self, it):
        return join_text(self, it)


def is_sym_text(x):
    return isinstance(x, (Atom, SymText))


def join_text(sep, it):
    items = list(it)
    if not is_sym_text(sep) and not any(is_sym_text(i) for i in items):
        return str.join(sep, items)
    parts = []
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if i:
            parts.append(sep)
        parts.append(x)
    return SymText(parts)


# ----------------------------------------------------------------------------------------------- path context

class Stats:
    FIELDS = ('paths', 'aborted', 'budget_paths', 'decisions', 'forks', 'queries', 'sat', 'unsat', 'unknown',
              'checks', 'checks_solver', 'unknown_checks', 'unknown_branches', 'approximations')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}
        self.covers = {}
        self.check_labels = {}

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                t = getattr(self, k)
                for kk, vv in v.items():
                    t[kk] = t.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


def _z(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return z3.IntVal(v.numerator)
        return z3.RealVal(v)
    return z3.IntVal(v)


class PathCtx:
    """One execution of a scenario along a prefix of decisions"""
    Z3_TIMEOUT_MS = 4000

    def __init__(self, prefix, stats, deadline, tier='quick', max_decisions=6000, text_mode='sym'):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.frontier = []          # other feasible prefixes
        self.stats = stats
        self.deadline = deadline
        self.tier = tier
        self.text_mode = text_mode
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set('timeout', self.Z3_TIMEOUT_MS)
        self.model = None
        self.inputs = {}            # name -> (kind, z3 expression, meta)
        self.order = []             # names in order of creation
        self.vars = []              # polynomial variables: (z3 expr, sort, lo, hi)
        self.atoms = {}             # sort -> list of representative atoms
        self.atom_input = {}        # input name -> Atom
        self.salt = 0
        self.collide = False
        self.violations = []
        self.opaque = {}
        self.zcache = {}
        self.order_budget = 0
        self.order_max = 3
        self.order_filter = None
        self.txt_vars = {}
        self.n_fresh = 0
        self.falsy_asked = set()
        self.decided = {}
        self.steps = 0

    # ------------------------------------------------------------------ solver
    def add(self, e):
        self.solver.add(e)

    def check_sat(self, *extra):
        t = now()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        if r == z3.unknown and now() < self.deadline:
            # once more from scratch, without the incremental mode
            s = z3.Solver()
            s.set('timeout', 5 * self.Z3_TIMEOUT_MS)
            s.add(*self.solver.assertions(), *extra)
            r = s.check()
            self.last_model = s.model() if r == z3.sat else None
        else:
            self.last_model = None
        self.stats.solver_s += now() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self.check_sat()
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                self.stats.unknown_branches += 1
                self.note('path condition not decided within the solver timeout')
                raise PathBudget()
            self.model = self.solver.model() if self.last_model is None else self.last_model
        return self.model

    def note(self, s):
        self.stats.notes[s] = self.stats.notes.get(s, 0) + 1

    def approx(self, s):
        self.stats.approximations += 1
        self.note(s)

    def tick(self):
        if len(self.trace) > self.max_decisions:
            raise Diverges()
        if now() > self.deadline:
            raise PathBudget()

    def step(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Diverges()

    def decide(self, e):
        """Truth of a z3 condition on this path; both outcomes are explored when both are feasible"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e, neg = e.arg(0), not neg
        k = e.get_id()
        if k not in self.decided:
            self.decided[k] = (e, self._decide(e))     # the term is kept alive, so its id stays unique
        return self.decided[k][1] != neg

    def _decide(self, e):
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            v = bool(d & 1)
            if d < 2:
                self.add(e if v else z3.Not(e))
                self.model = None
            return v
        self.tick()
        m = self.get_model()
        val = m.eval(e, model_completion=True)
        if z3.is_true(val):
            v = True
        elif z3.is_false(val):
            v = False
        else:
            r = self.check_sat(e)
            v = r == z3.sat
        r = self.check_sat(z3.Not(e) if v else e)
        if r == z3.unsat:
            self.trace.append(3 if v else 2)
            return v
        if r == z3.sat:
            self.stats.forks += 1
            self.frontier.append(self.trace + [0 if v else 1])
        else:
            self.stats.unknown_branches += 1
            self.note('branch feasibility not decided within the solver timeout')
        self.trace.append(1 if v else 0)
        self.add(e if v else z3.Not(e))
        return v

    def pick(self, n, expr=None):
        """n-ary decision; expr is an integer term with 0 <= expr < n"""
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if expr is not None:
                self.add(expr == d)
                self.model = None
            return d
        self.tick()
        first = None
        for i in range(n):
            if expr is not None:
                r = self.check_sat(expr == i)
                if r == z3.unknown:
                    self.stats.unknown_branches += 1
                if r != z3.sat:
                    continue
            if first is None:
                first = i
            else:
                self.stats.forks += 1
                self.frontier.append(self.trace + [i])
        if first is None:
            raise PathAbort()
        self.trace.append(first)
        if expr is not None:
            self.add(expr == first)
            self.model = None
        return first

    # ------------------------------------------------------------------ numbers
    def new_var(self, expr, sort, lo=None, hi=None):
        self.vars.append((expr, sort, lo, hi))
        return Poly.var(len(self.vars) - 1)

    def poly_z3(self, p):
        k = p.key()
        r = self.zcache.get(k)
        if r is not None:
            return r
        den = 1
        for c in p.t.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // __import__('math').gcd(den, c.denominator)
        terms = []
        for m, c in sorted(p.t.items()):
            c = int(c * den)
            e = None
            for v in m:
                x = self.vars[v][0]
                e = x if e is None else e * x
            if e is None:
                e = z3.IntVal(c)
            elif c != 1:
                e = c * e
            terms.append(e)
        r = terms[0] if len(terms) == 1 else z3.Sum(terms) if terms else z3.IntVal(0)
        self.zcache[k] = r  # a positive multiple of the polynomial: only its sign is used
        return r

    def poly_sign(self, p):
        """+1 / -1 when every value in the declared ranges gives that sign, 0 when unknown"""
        if p.is_zero():
            return 0
        pos = neg = True
        strict = False
        for m, c in p.t.items():
            st = True
            for v in m:
                lo = self.vars[v][2]
                if lo is None or lo < 0:
                    return 0
                if lo == 0:
                    st = False
            strict = strict or st
            if c > 0:
                neg = False
            else:
                pos = False
        if strict and pos:
            return 1
        if strict and neg:
            return -1
        return 0

    def rel(self, p, q, op):
        """truth of p/q `op` 0 as a bool or a SymBool"""
        c = p.as_const()
        qs = self.poly_sign(q)
        if c is not None and (c == 0 or qs):
            s = c * (qs or 1)
            return {'==': s == 0, '!=': s != 0, '<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]
        if op in ('==', '!='):
            if self.poly_sign(p):
                return op == '!='
            z = self.poly_z3(p)
            return SymBool(z == 0) if op == '==' else SymBool(z != 0)
        if not qs:
            p = p * q
            qs = 1
        if qs < 0:
            p = p.neg()
        s = self.poly_sign(p)
        if s:
            return {'<': s < 0, '<=': s < 0, '>': s > 0, '>=': s > 0}[op]
        z = self.poly_z3(p)
        return SymBool({'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op])

    def z_of(self, x):
        """z3 term of a number with constant denominator"""
        x = num(x)
        d = x.d.as_const()
        if d is None:
            self.approx('division inside an opaque term')
            raise PathBudget()
        terms = []
        for m, c in sorted(x.n.t.items()):
            e = _z(Fraction(c) / d)
            for v in m:
                e = e * self.vars[v][0]
            terms.append(e)
        if not terms:
            return z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def floor(self, x):
        k = (x.n.key(), x.d.key())
        if k in self.opaque:
            return self.opaque[k]
        self.n_fresh += 1
        v = z3.Int(f'floor!{self.n_fresh}')
        p = self.new_var(v, INT)
        r = SymNum(p, ONE, True)
        # v <= x < v + 1
        lo = (x - r) >= 0
        hi = (r + 1 - x) > 0
        for b in (lo, hi):
            if isinstance(b, SymBool):
                self.add(b.e)
            elif not b:
                raise PathAbort()
        self.model = None
        self.opaque[k] = r
        return r

    def eval_num(self, m, x):
        val = {}

        def ev(p):
            s = Fraction(0)
            for mono, c in p.t.items():
                t = Fraction(c)
                for v in mono:
                    if v not in val:
                        val[v] = z3_value(m.eval(self.vars[v][0], model_completion=True))
                    t *= val[v]
                s += t
            return s
        return ev(x.n) / ev(x.d)

    def concretize_int(self, x, limit=64):
        x = num(x)
        c = x.n.as_const()
        if c is not None:
            return int(Fraction(c) / x.d.as_const())
        for _ in range(limit):
            m = self.get_model() if self.pos >= len(self.prefix) else None
            if m is not None:
                v = int(self.eval_num(m, x))
                self.trace.append(v + 1000)
            else:
                v = self.prefix[self.pos] - 1000
                self.pos += 1
                self.trace.append(v + 1000)
            b = x == v
            if (b if isinstance(b, bool) else bool(b)):
                return v
        self.approx('too many values of an index')
        raise PathBudget()

    def concretize_any(self, x):
        """One feasible value of x is taken and the rest of this path's values is left unexplored (reported)"""
        self.approx('a symbolic number met native float code: one value of it explored')
        if self.pos < len(self.prefix):
            v = Fraction(*self.prefix[self.pos])
            self.pos += 1
        else:
            v = self.eval_num(self.get_model(), x)
        self.trace.append((v.numerator, v.denominator))
        b = x == v
        if isinstance(b, SymBool):
            self.add(b.e)
            self.model = None
        elif not b:
            raise PathAbort()
        return v

    # ------------------------------------------------------------------ names
    def atom_hash(self, a):
        if self.collide:
            return 7
        if self.salt == 0:
            return str.__hash__(a.rep)
        return hash((self.salt, str.__hash__(a.rep)))

    def part_token(self, p):
        if isinstance(p, Atom):
            return p.rep
        if isinstance(p, SymNum):
            k = (p.n.key(), p.d.key())
            if k not in self.opaque:
                self.opaque[k] = ('#', len(self.opaque))
            v = self.opaque[k]
            return f'<{v[1]}>' if isinstance(v, tuple) else '<f>'
        return p

    def txt(self, a):
        k = a.rep
        if k not in self.txt_vars:
            v = z3.String(f'txt!{k}')
            al = z3.Union(z3.Range('a', 'c'), z3.Re('_'), z3.Re('1'))
            self.add(z3.InRe(v, z3.Star(al)))
            self.add(z3.Length(v) <= 5)
            self.add((z3.Length(v) == 0) == (a.code == 0))
            one = z3.StringVal('1')
            same = [o for o, o_sort in self.txt_vars.values() if o_sort == a.sort]
            for i, o in enumerate(same):
                # different names of one spelling exist only as a number and its text
                self.add(z3.Or(v != o, v == one))
                for p in same[:i]:
                    self.add(z3.Not(z3.And(v == one, o == one, p == one)))
            self.txt_vars[k] = (v, a.sort)
            self.model = None
        return self.txt_vars[k][0]

    def text_eq(self, p1, p2):
        def tr(ps):
            out = []
            for p in ps:
                if isinstance(p, Atom):
                    out.append(self.txt(p))
                elif isinstance(p, SymNum):
                    if not p.isint:
                        return None
                    out.append(z3.IntToStr(self.z_of(p)))
                else:
                    out.append(z3.StringVal(p))
            return out[0] if len(out) == 1 else z3.Concat(*out) if out else z3.StringVal('')
        a, b = tr(p1), tr(p2)
        if a is None or b is None:
            self.approx('text of a non integer compared by token')
            return False
        return self.decide(a == b)


def z3_value(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(str(v))
