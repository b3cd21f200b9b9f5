"""Loads the real source of /repo, lightly instrumented, for symbolic execution.

The syntax tree of every module is re-read from the working tree on each run. Only the places where CPython would
force a proxy into a native value are rewritten (f-strings, str.join, a few builtins), plus the iteration over sets
(so their order can be made symbolic) and a marker at the entry of each function (evidence of what was executed).
"""
import ast
import builtins
import importlib.abc
import importlib.util
import itertools
import math
import io
import os
import sys

from . import engine as E

REPO = os.environ.get('SYMX_REPO', '/repo')
PYROOT = os.path.join(REPO, 'Python', 'research')
DEMO = os.path.join(PYROOT, 'scripts', 'demo')
DEMO_MODULES = {'util', 'game', 'pacman', 'layout', 'ghostAgents', 'keyboardAgents', 'demo',
                'graphicsDisplay', 'graphicsUtils'}

EXECUTED = set()
_CODE = {}
_SITES = {}

WRAPPED = {'len', 'int', 'float', 'bool', 'list', 'tuple', 'iter', 'enumerate', 'isinstance', 'sorted', 'zip', 'map',
           'filter', 'str', 'repr', 'reversed', 'type', 'round', 'print', 'divmod', 'format'}
ORDERED = {'list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter'}


def sx_it(x, site):
    """Iteration over a set: any order is possible, the order is a symbolic choice (within the order budget)"""
    c = E.CTX
    if c is None or c.order_budget <= 0 or type(x) not in (set, frozenset):
        return x
    n = len(x)
    if n < 2 or n > c.order_max or (c.order_filter and not c.order_filter(site)):
        return x
    c.order_budget -= 1
    items = list(x)
    k = c.pick(math.factorial(n))
    return next(itertools.islice(itertools.permutations(items), k, None))


def sx_f(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = repr(v)
        elif conv in ('s', 'a'):
            v = str(v)
        if spec:
            if isinstance(v, E.SymNum):
                v = E.SymText([v])
                E.CTX.approx('number format specification ignored')
                sym = True
                out.append(v)
                continue
            out.append(format(v, spec))
            continue
        if isinstance(v, (E.Atom, E.SymText)):
            sym = True
        elif isinstance(v, E.SymNum):
            v = E.SymText([v])
            sym = True
        elif type(v) is str:
            pass
        else:
            f = type(v).__format__
            v = format(v, '') if f is not object.__format__ else str(v)
            if isinstance(v, (E.Atom, E.SymText)):
                sym = True
        out.append(v)
    if sym:
        return E.SymText(out)
    return ''.join(out)


def sx_join(obj, args, kw):
    if isinstance(obj, str) and len(args) == 1 and not kw:
        return E.join_text(obj, args[0])
    return obj.join(*args, **kw)


_PCT = __import__('re').compile(r'%(%|[-+ 0#]*[0-9]*(?:\.[0-9]+)?[sdrifgeu])')


def sx_mod(fmt, args):
    """text % arguments: numbers stay symbolic parts of the text"""
    if not isinstance(fmt, str) or isinstance(args, dict):
        return fmt % args
    tup = args if isinstance(args, tuple) else (args,)
    if not any(isinstance(a, (E.SymNum, E.SymText, E.Atom)) for a in tup):
        return fmt % args
    out, at, i = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[at:m.start()])
        at = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        a = tup[i]
        i += 1
        if isinstance(a, E.SymNum):
            if m.group(1) not in ('d', 's', 'i', 'r'):
                E.CTX.note('number format specification ignored')
            elif m.group(1) in ('d', 'i') and not a.isint:
                a = E.trunc_num(a)
            out.append(E.SymText([a]) if isinstance(a, E.SymNum) else str(a))
        elif isinstance(a, (E.SymText, E.Atom)):
            out.append(repr(a) if m.group(1) == 'r' else a)
        else:
            out.append(('%' + m.group(1)) % (a,))
    out.append(fmt[at:])
    return E.SymText(out)


_NUMTYPES = {int, float}


def _isinstance(x, t):
    if isinstance(x, (E.SymNum, E.SymBool)):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if isinstance(k, tuple):
                if _isinstance(x, k):
                    return True
            elif k is int and (isinstance(x, E.SymBool) or x.isint):
                return True
            elif k is float and isinstance(x, E.SymNum) and not x.isint:
                return True
            elif k is bool and isinstance(x, E.SymBool):
                return True
            elif isinstance(k, type) and k.__name__ in ('Number', 'Real', 'Complex', 'object'):
                return True
            elif isinstance(k, type) and k.__name__ in ('Integral', 'Rational') and \
                    (isinstance(x, E.SymBool) or x.isint):
                return True
        return False
    return isinstance(x, t)


def _len(x):
    if type(x).__len__ in _NATIVE_LEN if hasattr(type(x), '__len__') else False:
        return len(x)
    f = getattr(type(x), '__len__', None)
    if f is None:
        return len(x)
    r = f(x)
    if isinstance(r, E.SymNum):
        return r
    return len(x)


_NATIVE_LEN = {list.__len__, tuple.__len__, dict.__len__, set.__len__, frozenset.__len__, str.__len__}


def _float(x=0.0):
    if isinstance(x, E.SymNum):
        return E.as_float(x)
    return float(x)


def _int(*a):
    if len(a) == 1 and isinstance(a[0], E.SymNum):
        return E.trunc_num(a[0])
    return int(*a)


def _sum_like_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, E.SymNum):
            return int if x.isint else float
        if isinstance(x, E.SymBool):
            return bool
        if isinstance(x, (E.Atom, E.SymText)):
            return str
    return type(*a)


def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, (E.Atom, E.SymText)):
            return x
        if isinstance(x, E.SymNum):
            return E.SymText([x])
        if isinstance(x, E.SymBool):
            return str(bool(x))
    return str(*a, **k)


def _print(*a, **k):
    # into a text the harness (or the game itself) collects; never to the terminal
    if isinstance(k.get('file') or sys.stdout, io.StringIO):
        print(*a, **k)


def _bool(*a):
    return bool(*a)


_REPL = {len: _len, int: _int, float: _float, isinstance: _isinstance, type: _sum_like_type, str: _str, print: _print}


def sx_call(f, site, args, kw):
    r = _REPL.get(f)
    if r is not None:
        return r(*args, **kw)
    if f is sorted:
        return sorted(*args, **kw)
    if args and f in _ORDERED_F:
        args = tuple(sx_it(a, site) if type(a) in (set, frozenset) else a for a in args)
    return f(*args, **kw)


_ORDERED_F = {list, tuple, iter, enumerate, zip, map, filter}


def sx_enter(site):
    EXECUTED.add(site)
    if E.CTX is not None:
        E.CTX.step()


def sx_tick():
    if E.CTX is not None:
        E.CTX.step()


def sym_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, E.SymNum) or isinstance(b, E.SymNum):
        a, b = E.num(a), E.num(b)
        d = a - b
        if not isinstance(d, E.SymNum) and d == 0:
            return True
        if d == 0:
            return True
        big = abs(a)
        ob = abs(b)
        if ob > big:
            big = ob
        tol = big * rel_tol
        if abs_tol > tol:
            tol = abs_tol
        return bool(abs(d) <= tol)
    return _orig_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def sym_fsum(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


_orig_isclose = math.isclose
_orig_floor = math.floor
_orig_fsum = math.fsum


def _fsum(it):
    l = list(it)
    return sym_fsum(l) if any(isinstance(x, E.SymNum) for x in l) else _orig_fsum(l)


def patch_math():
    math.isclose = sym_isclose
    math.fsum = _fsum


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    def site(self):
        return self.module + ':' + ('.'.join(self.stack) or '<module>')

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _func(self, node):
        # decorators, defaults and annotations belong to the enclosing scope
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        mark = ast.Expr(ast.Call(self._name('sx__enter'), [ast.Constant(self.site())], []))
        at = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                   and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(at, mark)
        self.stack.pop()
        node.returns = None
        for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs:
            a.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        # annotations are not evaluated (no behaviour), the assignment is kept
        if node.value is None:
            return node if self.stack and not isinstance(node.target, ast.Name) else node
        node.value = self.visit(node.value)
        return node

    def _iter(self, e):
        return ast.Call(self._name('sx__it'), [e, ast.Constant(self.site())], [])

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._iter(node.iter)
        node.body.insert(0, self._tick())
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick())
        return node

    def _tick(self):
        return ast.Expr(ast.Call(self._name('sx__tick'), [], []))

    def visit_comprehension(self, node):
        self.generic_visit(node)
        if not node.is_async:
            node.iter = self._iter(node.iter)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.Call):     # nested, already rewritten
                parts.append(v)
            else:
                conv = ast.Constant({-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion])
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, conv, spec], ast.Load()))
        return ast.copy_location(ast.Call(self._name('sx__f'), parts, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(self._name('sx__mod'), [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in WRAPPED:
            args = ast.Tuple(node.args, ast.Load())
            kws = ast.Dict([ast.Constant(k.arg) if k.arg else None for k in node.keywords],
                           [k.value for k in node.keywords])
            return ast.copy_location(
                ast.Call(self._name('sx__call'), [node.func, ast.Constant(self.site()), args, kws], []), node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'join':
            args = ast.Tuple(node.args, ast.Load())
            kws = ast.Dict([ast.Constant(k.arg) if k.arg else None for k in node.keywords],
                           [k.value for k in node.keywords])
            return ast.copy_location(ast.Call(self._name('sx__join'), [node.func.value, args, kws], []), node)
        return node


HOOKS = {'sx__it': sx_it, 'sx__f': sx_f, 'sx__join': sx_join, 'sx__call': sx_call, 'sx__enter': sx_enter, 'sx__mod': sx_mod, 'sx__tick': sx_tick}


def compile_module(name, path):
    k = (name, path)
    if k not in _CODE:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[k] = compile(tree, path, 'exec')
    return _CODE[k]


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__.update(HOOKS)
        exec(compile_module(self.name, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == 'scripts' or name.startswith('scripts.'):
            base = os.path.join(PYROOT, *name.split('.'))
            if os.path.isdir(base):
                init = os.path.join(base, '__init__.py')
                if not os.path.exists(init):
                    return None
                spec = importlib.util.spec_from_loader(name, Loader(name, init), is_package=True, origin=init)
                spec.submodule_search_locations = [base]
                return spec
            if os.path.exists(base + '.py'):
                return importlib.util.spec_from_loader(name, Loader(name, base + '.py'), origin=base + '.py')
            return None
        if name in DEMO_MODULES:
            p = os.path.join(DEMO, name + '.py')
            if os.path.exists(p):
                return importlib.util.spec_from_loader(name, Loader(name, p), origin=p)
        return None


def purge():
    """Every path starts from freshly executed modules: no state leaks from one explored path to another"""
    for k in [k for k in sys.modules if k == 'scripts' or k.startswith('scripts.') or k in DEMO_MODULES]:
        del sys.modules[k]


def install():
    sys.meta_path.insert(0, Finder())
    patch_math()
