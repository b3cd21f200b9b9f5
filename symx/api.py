"""Harness interface `S`, in two implementations: SymS (symbolic inputs, z3) and ConcS (one concrete replay).

Harness files import neither z3 nor this module, so exactly the same scenario text is explored symbolically and
replayed on the unmodified code.
"""
import math
from fractions import Fraction


class Refused:
    """Result of S.attempt when the code under test refused the call with an exception"""

    def __init__(self, exc):
        self.exc = exc

    def __bool__(self):
        return False

    def __repr__(self):
        return f'Refused({type(self.exc).__name__}: {self.exc})'


_MISSING = object()


class BaseS:
    symbolic = False
    tier = 'quick'

    def patch(self, obj, name, value):
        """a stand-in for an attribute of a library module, undone at the end of the path"""
        if '_undo' not in self.__dict__:
            self._undo = []
        self._undo.append((obj, name, getattr(obj, name, _MISSING)))
        if value is _MISSING:
            delattr(obj, name)
        else:
            setattr(obj, name, value)

    def unpatch(self, obj, name):
        self.patch(obj, name, _MISSING)

    def restore(self):
        for obj, name, old in reversed(self.__dict__.pop('_undo', [])):
            if old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def attempt(self, fn, *a, **k):
        """Call fn; any ordinary exception is a refusal (path steering is BaseException and passes through)"""
        try:
            return fn(*a, **k)
        except Exception as e:
            return Refused(e)

    @staticmethod
    def refused(r):
        return isinstance(r, Refused)

    def deep(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def atoms(self, prefix, n, sort=None):
        """n pairwise different names"""
        out = []
        for i in range(n):
            out.append(self.atom(f'@{prefix}{i}', sort or prefix, distinct=True))
        return out

    def subset(self, name, items, min_size=0):
        """an arbitrary sub-list"""
        out = [x for i, x in enumerate(items) if self.flag(f'{name}{i}')]
        self.assume(len(out) >= min_size)
        return out

    def pick(self, name, items):
        """an arbitrary element"""
        return items[self.choose(name, len(items))]

    def perm(self, name, items):
        """an arbitrary order of the items"""
        rest = list(items)
        out = []
        i = 0
        while len(rest) > 1:
            out.append(rest.pop(self.choose(f'{name}{i}', len(rest))))
            i += 1
        return out + rest

    def same_map(self, got, want, label, detail=None):
        """got and want: dicts with the same keys and equal numbers"""
        self.check(set(got) == set(want), label + '.keys', (got, want) if detail is None else detail)
        for k in want:
            if k in got:
                self.eq(got[k], want[k], label, (got, want) if detail is None else detail)


class Failed(BaseException):
    pass


class Skipped(BaseException):
    pass


class SameHash(str):
    """a name whose hash collides with that of every other name (as -1 and -2 do)"""

    def __hash__(self):
        return 7


class ConcS(BaseS):
    """Concrete replay on the unmodified code"""
    collide = False

    def __init__(self, inputs, salt=0, tier='quick'):
        self.inputs = inputs
        self.salt = salt
        self.tier = tier
        self.failures = []
        self.missing = []
        self.reps = {}
        self.names = {}

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]['v']
        self.missing.append(name)
        return default

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else 0))
        self.assume((lo is None or v >= lo) and (hi is None or v <= hi))
        return v

    def real(self, name, lo=None, hi=None, hi_open=False, lo_open=False):
        v = self._get(name, [lo if lo is not None else 0, 1])
        if isinstance(v, list):
            f = Fraction(v[0], v[1])
            return f.numerator if f.denominator == 1 and abs(f.numerator) < 2 ** 53 else float(f)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choose(self, name, n):
        v = int(self._get(name, 0))
        return v if v < n else 0

    def atom(self, name, sort=None, distinct=False, among=None):
        v = self._get(name, None)
        if v is None:
            return self._spell(f'{name}?', False, None)
        return 1 if v.get('int') else self._spell(v['rep'], v.get('falsy'), v.get('txt'))

    def _spell(self, rep, falsy, txt):
        s = self._spelling(rep, falsy, txt)
        return SameHash(s) if self.collide else s

    def _spelling(self, rep, falsy, txt):
        if falsy:
            return ''
        if txt is not None:
            return txt
        if self.salt == 0:
            return rep
        if rep not in self.names:
            import hashlib
            h = hashlib.sha256(f'{self.salt}:{rep}'.encode()).hexdigest()
            style = self.salt % 3
            self.names[rep] = (h[:3] + '_' + rep) if style == 0 else 'n' + h[:5] if style == 1 else rep + h[:2]
        return self.names[rep]

    def assume(self, c):
        if not c:
            raise Skipped()

    def check(self, c, label, detail=None):
        if not c:
            self.failures.append((label, _show(detail)))

    def eq(self, a, b, label, detail=None):
        self.check(close(a, b), label, (a, b) if detail is None else detail)

    def same(self, a, b):
        return close(a, b)

    def cover(self, label):
        pass

    def orders(self, *a, **k):
        pass

    def hash_orders(self, n, collide=False):
        self.collide = collide and self.choose('hash_seed', n + 1) == n

    def text_tokens(self):
        pass

    def real_div(self, a, b):
        return a / b

    def pred(self, fn):
        return fn()


def _show(d):
    try:
        s = repr(d() if callable(d) else d)
    except Exception as e:
        s = f'<{e}>'
    return s[:1500]


def close(a, b):
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) \
            and not (isinstance(a, bool) or isinstance(b, bool)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    return a == b
