"""Behaviour preserving rewrites of whole source files, to see that the checks stay quiet on them.

python3 tools/refactor.py [-k KIND,KIND] [-f FILE,FILE] [-p PROP,PROP] [-j N]
Each kind is applied to a scratch copy under /tmp, the tests are run there, then all checks with SYMX_STRICT=1.
Not part of any registered check."""
import argparse
import ast
import copy
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYR = 'Python/research/scripts/'
REL = ['graph_components', 'sample_set', 'variables_graph', 'folded_graph', 'conditional_graph', 'activation_graph',
       'sample_space', 'relation_graph', 'sample_graph']
DEM = ['game', 'pacman', 'layout', 'ghostAgents', 'keyboardAgents', 'util', 'graphicsDisplay', 'graphicsUtils']


def N(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def call(f, *a):
    return ast.Call(N(f) if isinstance(f, str) else f, list(a), [])


def attr(o, a):
    return ast.Attribute(o, a, ast.Load())


class Base(ast.NodeTransformer):
    imports = ''

    def __init__(self):
        self.n = 0

    def fresh(self, p='_t'):
        self.n += 1
        return f'{p}{self.n}'


class StmtBase(Base):
    """rewrites statement lists; self.pre collects statements to put before the current one"""

    def block(self, body):
        out = []
        for s in body:
            self.pre = []
            saved = self.pre
            r = self.stmt(s)
            self.pre = saved
            out.extend(self.pre)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        return s


class Assert2If(Base):
    """assert c, m -> if not c: raise AssertionError(m)"""

    def visit_Assert(self, n):
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(call('AssertionError', *([n.msg] if n.msg else [])))], [])


class InvertIf(Base):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class ForWhile(Base):
    """for x in it: body -> iterator and while loop"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it, end, cur = self.fresh('_it'), self.fresh('_end'), self.fresh('_cur')
        return [ast.Assign([N(it, ast.Store())], call('iter', n.iter)),
                ast.Assign([N(end, ast.Store())], call('object')),
                ast.While(ast.Constant(True), [
                    ast.Assign([N(cur, ast.Store())], call('next', N(it), N(end))),
                    ast.If(ast.Compare(N(cur), [ast.Is()], [N(end)]), [ast.Break()], []),
                    ast.Assign([n.target], N(cur))] + n.body, [])]


class ForIndex(Base):
    """for x in it: body -> loop over indices of a list"""

    def visit_For(self, n):
        self.generic_visit(n)
        l, i = self.fresh('_l'), self.fresh('_i')
        # only if the loop does not change what it goes over (a list copy would hide that)
        return [ast.Assign([N(l, ast.Store())], ast.List([ast.Starred(n.iter, ast.Load())], ast.Load())),
                ast.For(N(i, ast.Store()), call('range', call('len', N(l))), [
                    ast.Assign([n.target], ast.Subscript(N(l), N(i), ast.Load()))] + n.body, n.orelse)]


class Fmt(Base):
    """f'..{x}..' -> '..{}..'.format(x)"""

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        s, a = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = ':' + ''.join(x.value for x in v.format_spec.values)
                s += '{' + ('' if v.conversion == -1 else '!' + chr(v.conversion)) + spec + '}'
                a.append(v.value)
        return call(attr(ast.Constant(s), 'format'), *a)


class Concat(Base):
    """f'..{x}..' -> '..' + str(x) + '..'"""

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        out = ast.Constant('')
        for v in n.values:
            if isinstance(v, ast.Constant):
                e = v
            elif v.format_spec is not None:
                e = ast.JoinedStr([v])
            else:
                e = call('repr' if v.conversion == 114 else 'str', v.value)
            out = ast.BinOp(out, ast.Add(), e)
        return out


class Percent(Base):
    """f'..{x}..' -> '..%s..' % (x,)"""

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        s, a = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('%', '%%')
            elif v.format_spec is not None:
                s += '%s'
                a.append(ast.JoinedStr([v]))
            else:
                s += '%r' if v.conversion == 114 else '%s'
                a.append(v.value)
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple(a, ast.Load()))


class CompGen(Base):
    """{..}, [..] comprehensions -> set(generator), list(generator), dict(generator of pairs)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return call('list', ast.GeneratorExp(n.elt, n.generators))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return call('set', ast.GeneratorExp(n.elt, n.generators))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return call('dict', ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))


class CompMap(Base):
    """[f(x) for x in it if c] -> list(map(lambda x: f(x), filter(lambda x: c, it)))"""

    def conv(self, n, kind, elt):
        self.generic_visit(n)
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name):
            return n
        g = n.generators[0]
        it = g.iter
        args = lambda: ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        for c in g.ifs:
            it = call('filter', ast.Lambda(args(), c), it)
        it = call('map', ast.Lambda(args(), elt(n)), it)
        return call(kind, it) if kind else it

    def visit_ListComp(self, n):
        return self.conv(n, 'list', lambda n: n.elt)

    def visit_SetComp(self, n):
        return self.conv(n, 'set', lambda n: n.elt)

    def visit_DictComp(self, n):
        return self.conv(n, 'dict', lambda n: ast.Tuple([n.key, n.value], ast.Load()))

    def visit_GeneratorExp(self, n):
        return self.conv(n, None, lambda n: n.elt)


class CompFunc(ast.NodeTransformer):
    """comprehensions -> local functions with loops, defined in front of the statement"""
    imports = ''

    def __init__(self):
        self.n = 0
        self.pre = None
        self.depth = 0

    def visit(self, n):
        if isinstance(n, ast.ClassDef):
            n.body = [self.visit(s) for s in n.body]
            return n
        if isinstance(n, ast.FunctionDef):
            self.depth += 1
            n.body = self.block(n.body)
            self.depth -= 1
            return n
        if isinstance(n, ast.Lambda):
            return n
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and self.pre is not None and self.depth:
            outer, self.pre = self.pre, None        # inner comprehensions stay
            outer.append(None)
            outer.pop()
            self.pre = outer
            return self.conv(n)
        if isinstance(n, (ast.If, ast.While)):
            n.test = self.visit(n.test) if isinstance(n, ast.If) else n.test
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            return n
        if isinstance(n, (ast.For, ast.With)):
            if isinstance(n, ast.For):
                n.iter = self.visit(n.iter)
                n.orelse = self.block(n.orelse)
            n.body = self.block(n.body)
            return n
        if isinstance(n, ast.Try):
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            n.finalbody = self.block(n.finalbody)
            for h in n.handlers:
                h.body = self.block(h.body)
            return n
        return self.generic_visit(n)

    def block(self, body):
        out = []
        for s in body:
            saved, self.pre = self.pre, []
            r = self.visit(s)
            out.extend(self.pre)
            self.pre = saved
            out.append(r)
        return out

    def conv(self, n):
        self.n += 1
        name = f'_part{self.n}'
        res = '_res'
        if isinstance(n, ast.ListComp):
            init, add = ast.List([], ast.Load()), ast.Expr(call(attr(N(res), 'append'), n.elt))
        elif isinstance(n, ast.SetComp):
            init, add = call('set'), ast.Expr(call(attr(N(res), 'add'), n.elt))
        elif isinstance(n, ast.DictComp):
            init = ast.Dict([], [])
            add = ast.Assign([ast.Subscript(N(res), n.key, ast.Store())], n.value)
        else:
            init, add = None, ast.Expr(ast.Yield(n.elt))
        body = add
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        fn = ast.FunctionDef(name, ast.arguments([], [], None, [], [], None, []),
                             ([ast.Assign([N(res, ast.Store())], init)] if init else []) + [body] +
                             ([ast.Return(N(res))] if init else []), [])
        self.pre.append(fn)
        return call(name)


class AnyAll(Base):
    """any(g) -> next((True for x in g if x), False); all(g) -> not any(not x for x in g)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1:
            x = self.fresh('_x')
            g = [ast.comprehension(N(x, ast.Store()), n.args[0], [], 0)]
            if n.func.id == 'any':
                g[0].ifs = [N(x)]
                return call('next', ast.GeneratorExp(ast.Constant(True), g), ast.Constant(False))
            return ast.UnaryOp(ast.Not(), call('any', ast.GeneratorExp(ast.UnaryOp(ast.Not(), N(x)), g)))
        return n


class Reduce(Base):
    """sum(x) -> functools.reduce(operator.add, x, 0); max/min of two -> conditional"""
    imports = 'import functools, operator\n'

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1:
            return call(attr(N('functools'), 'reduce'), attr(N('operator'), 'add'), n.args[0], ast.Constant(0))
        if isinstance(n.func, ast.Name) and n.func.id == 'abs' and len(n.args) == 1:
            x = ast.Lambda(ast.arguments([], [ast.arg('_v')], None, [], [], None, []),
                           ast.IfExp(ast.Compare(N('_v'), [ast.Lt()], [ast.Constant(0)]), ast.UnaryOp(ast.USub(), N('_v')), N('_v')))
            return ast.Call(x, n.args, [])
        return n


class SetOps(Base):
    """{a, b} -> set([a, b]); a.union(b) -> set | ; frozenset(set comp) -> frozenset(generator)"""

    def visit_Set(self, n):
        self.generic_visit(n)
        return call('set', ast.List(n.elts, ast.Load()))

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset') and n.args and isinstance(n.args[0], ast.SetComp):
            return call(n.func.id, ast.GeneratorExp(n.args[0].elt, n.args[0].generators))
        return n


class Items(Base):
    """for k, v in d.items() -> for k in d.keys(): v = d[k] (loops and comprehensions over plain names or attributes)"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args \
                and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            d = self.fresh('_d')
            k, v = n.target.elts
            return [ast.Assign([N(d, ast.Store())], call('dict', it)),
                    ast.For(k, ast.List([ast.Starred(N(d), ast.Load())], ast.Load()), [ast.Assign([v], ast.Subscript(N(d), N(k.id), ast.Load()))] + n.body, n.orelse)]
        return n


class Aug(Base):
    """x += 1 -> x = x + 1 (numbers and immutable values only: plain += - * /)"""

    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Load()
        t.ctx = ast.Load()
        return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))


class BoolIf(Base):
    """a and b -> (b if a else False) in tests; not a == b -> a != b"""

    def tests(self, n):
        if isinstance(n, ast.BoolOp):
            vs = [self.tests(v) for v in n.values]
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = ast.IfExp(v, r, ast.Constant(False)) if isinstance(n.op, ast.And) else ast.IfExp(v, ast.Constant(True), r)
            return r
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.tests(n.test)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        n.test = self.tests(n.test)
        return n


class Temps(ast.NodeTransformer):
    """return f(x) -> _r = f(x); return _r; arguments of calls in expression statements and assignments to locals"""
    imports = ''

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, ast.Return) and s.value is not None:
                out += [ast.Assign([N('_result', ast.Store())], s.value), ast.Return(N('_result'))]
            elif isinstance(s, ast.If):
                out += [ast.Assign([N('_cond', ast.Store())], s.test), ast.If(N('_cond'), s.body, s.orelse)]
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args \
                    and not any(isinstance(a, ast.Starred) for a in s.value.args) and not s.value.keywords \
                    and not (isinstance(s.value.func, ast.Name) and s.value.func.id == 'super'):
                names = []
                for i, a in enumerate(s.value.args):
                    out.append(ast.Assign([N(f'_arg{i}', ast.Store())], a))
                    names.append(N(f'_arg{i}'))
                out.append(ast.Expr(ast.Call(s.value.func, names, [])))
            else:
                out.append(s)
        return out


class Helper(ast.NodeTransformer):
    """every method body moves into a helper method, called by the method"""
    imports = ''

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == 'self' \
                    and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) \
                    and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = '_impl_' + n.name + '_' + s.name.strip('_')
                h.args.defaults = []
                h.returns = None
                s.body = [ast.Return(ast.Call(attr(N('self'), h.name), [N(a.arg) for a in s.args.args[1:]], []))]
                out.append(h)
        n.body = out
        return n


class Sorted(Base):
    """sorted(x, key=..) -> local list and .sort()"""
    imports = 'def _in_order(_xs, **_k):\n    _l = [x for x in _xs]\n    _l.sort(**_k)\n    return _l\n'

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'sorted':
            n.func = N('_in_order')
        return n


class Walrus(Base):
    """len(x) == n -> not len(x) != n; x in y -> not x not in y; x is None -> not x is not None"""
    SW = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
          ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and not isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.SW[type(n.ops[0])]()], n.comparators))
        return n


class Early(Base):
    """if c: return a else: return b -> guard clauses; elif chains flattened are kept"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and n.body[-1].orelse \
                and isinstance(n.body[-1].body[-1], (ast.Return, ast.Raise)):
            i = n.body.pop()
            n.body += [ast.If(i.test, i.body, [])] + i.orelse
        return n


class Match(Base):
    """isinstance(x, T) -> issubclass(type(x), T)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance':
            return call('issubclass', call('type', n.args[0]), n.args[1])
        return n


class FlipCmp(Base):
    """a < b -> b > a; a == b -> b == a; a + b unchanged"""
    FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FL:
            return ast.Compare(n.comparators[0], [self.FL[type(n.ops[0])]()], [n.left])
        return n


class Noop(Base):
    """a statement that does nothing, in every function"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = [ast.Assign([N('_nothing', ast.Store())], ast.List([], ast.Load())), ast.Expr(call('len', N('_nothing')))]
        return n


class Str(Base):
    """str.join over generator -> loop helper; str(x) -> format(x)"""
    imports = ('def _joined(_sep, _xs):\n    _o = ""\n    for _i, _x in enumerate(_xs):\n'
               '        if _i:\n            _o += _sep\n        _o += _x\n    return _o\n')

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant) and len(n.args) == 1:
            return call('_joined', n.func.value, n.args[0])
        return n


class ChainIter(Base):
    """set.union(*x) etc. unchanged; list(x) -> [*x], set(x) -> {*x}, tuple(x) -> (*x,)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            s = [ast.Starred(n.args[0], ast.Load())]
            if n.func.id == 'list':
                return ast.List(s, ast.Load())
            if n.func.id == 'set':
                return ast.Set(s)
            if n.func.id == 'tuple':
                return ast.Tuple(s, ast.Load())
        return n


KINDS = {k.__name__: k for k in (Assert2If, InvertIf, ForWhile, ForIndex, Fmt, Concat, Percent, CompGen, CompMap, CompFunc,
                                 AnyAll, Reduce, SetOps, Items, Aug, BoolIf, Temps, Helper, Sorted, Walrus, Early, Match,
                                 FlipCmp, Noop, Str, ChainIter)}


def rewrite(path, kind):
    src = open(path).read()
    tree = ast.parse(src)
    tr = KINDS[kind]()
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    if tr.imports:
        lines = out.split('\n')
        i = 0
        body = ast.parse(out).body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            i = body[0].end_lineno
        while any(l.startswith('from __future__') for l in lines[i:i + 3]):
            i += 1
        lines[i:i] = tr.imports.rstrip('\n').split('\n')
        out = '\n'.join(lines)
    compile(out, path, 'exec')
    with open(path, 'w') as f:
        f.write(out)


def work(job):
    kind, files, props = job
    d = f'/tmp/refac/{kind}_{files[0][:3]}'
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.makedirs(d + '/r')
        os.makedirs(d + '/ev')
        subprocess.run(f'cp -a /repo/Python {d}/r/', shell=True, check=True)
        for f in files:
            rewrite(f'{d}/r/{PYR}{f}', kind)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', BROWSER='true')
        t = subprocess.run('timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider scripts/test --deselect '
                           'scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr',
                           shell=True, cwd=d + '/r/Python/research', env=env, capture_output=True, text=True)
        res = []
        if t.returncode:
            res.append('TESTS ' + t.stdout[-300:])
        env.update(SYMX_REPO=d + '/r', SYMX_EVID=d + '/ev', SYMX_WORKERS='1', SYMX_STRICT='1', SYMX_FIRST='1')
        for p in props:
            try:
                c = subprocess.run(['python3-vt', ROOT + '/symx/run.py', p], env=env, capture_output=True, text=True, timeout=1500, cwd=ROOT)
            except subprocess.TimeoutExpired:
                res.append(p + ' TIMEOUT')
                continue
            if c.returncode or 'INCONCLUSIVE' in c.stdout:
                res.append(f'{p} rc{c.returncode} {c.stdout[-500:]} {c.stderr[-300:]}')
        return kind, files[0][:3], res
    except Exception as e:
        return kind, files[0][:3], ['TOOL ' + repr(e)]
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('-k')
    a.add_argument('-f')
    a.add_argument('-p')
    a.add_argument('-j', type=int, default=8)
    o = a.parse_args()
    kinds = o.k.split(',') if o.k else list(KINDS)
    ids = sorted(f[:-3].upper() for f in os.listdir(ROOT + '/props') if f[0] in 'cd' and f[1:3].isdigit())
    jobs = []
    for k in kinds:
        for pre, names in (('relnet/', REL), ('demo/', DEM)):
            fs = [pre + n + '.py' for n in names if not o.f or n in o.f.split(',')]
            ps = [p for p in ids if (p[0] == 'C') == (pre == 'relnet/') and (not o.p or p in o.p.split(','))]
            if fs and ps:
                jobs.append((k, fs, ps))
    with ThreadPoolExecutor(o.j) as ex:
        for k, f, r in ex.map(work, jobs):
            print(k, f, 'quiet' if not r else '', flush=True)
            for x in r:
                print('    ', x.replace('\n', '\n        '), flush=True)


main()
