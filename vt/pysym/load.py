"""Load the Python modules of /repo/scripts instrumented for symbolic execution.

The source is read from the working tree, parsed, and rewritten so that the operations C code would perform on string contents
(method calls on literals, `in`, `%`, f-strings, subscripts, regular expressions, int(), ...) go through this module; nothing else
changes.  Statements, branches and function bodies are the ones in the tree.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import re
import sys
import types
import warnings
from . import rx
from .sym import (SymStr, SymInt, METHODS, deep, mk, chs, streq, ask, concretize, concretize_int, to_int, to_float, SymFloat, fmt, format1, show,
                  repr_, percent, S_find, is_in)
from ..engine import Inconclusive, Infeasible, Counterexample
from ..runner import REPO

SCRIPTS = os.path.join(REPO, 'scripts')


# ------------------------------------------------------------------ run-time support
def _conc(v):
    t = type(v)
    if t is SymStr:
        return concretize(v)
    if t is SymInt:
        return concretize_int(v)
    if t in (list, tuple, set, frozenset):
        return t(_conc(x) for x in v)
    if t is dict:
        return {_conc(k): _conc(x) for k, x in v.items()}
    return v


def key(d, k):
    """The key of d equal to k on this path (or k itself when there is none)."""
    if isinstance(k, tuple) and deep(k):
        for x in list(d):
            if isinstance(x, tuple) and x == k:
                return x, True
        return k, False
    for x in list(d):
        if isinstance(x, str) and ask(streq(x, k)):
            return x, True
    return k, False


def vt_in(a, b):
    if deep(a) and isinstance(b, (dict, set, frozenset, type({}.keys()))):
        return key(b, a)[1]
    if type(a) is SymStr and isinstance(b, str):
        return S_find(b, a) >= 0
    if isinstance(a, SymInt) and isinstance(b, range):
        return any(a == x for x in b)
    return a in b


def vt_mod(a, b):
    if isinstance(a, str) and (type(a) is SymStr or deep(b) or isinstance(b, (SymStr, SymInt))):
        return percent(a, b)
    return a % b


def vt_fstr(parts):
    out = []
    for p in parts:
        out += chs(p) if isinstance(p, str) else chs(format1(*p))
    return mk(out)


def vt_get(o, k):
    if deep(k) and isinstance(o, dict):
        k, found = key(o, k)
        if not found:
            raise KeyError(k)
    return o[k]


def vt_set(o, k, v):
    if deep(k) and isinstance(o, dict):
        k, _ = key(o, k)
    o[k] = v


def vt_exc():
    t = sys.exc_info()[0]
    if t is not None and issubclass(t, (Inconclusive, Infeasible, Counterexample)):
        raise


def _isinst(f):
    return isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType))


ATTR = re.compile(r'\{\w*\.')
_LOG = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'}


def vt_call(f, /, *a, **k):
    sym = False
    for x in a:
        t = type(x)
        if t is SymStr or t is SymInt or t is SymFloat or ((t is list or t is tuple or t is dict or t is set) and deep(x)):
            sym = True
            break
    if not sym and k:
        sym = any(deep(x) for x in k.values())
    self = getattr(f, '__self__', None)
    if not sym:
        if isinstance(self, str) and type(self) is not SymStr and f.__name__ == 'join' and len(a) == 1 and not isinstance(a[0], (str, list, tuple)):
            items = list(a[0])
            return METHODS['join'](self, items) if deep(items) else self.join(items)
        if type(self) is str and f.__name__ == 'format' and ATTR.search(self):   # attributes of objects may be symbolic
            return METHODS['format'](self, *a, **k)
        return f(*a, **k)
    if self is not None and _isinst(f):
        n = f.__name__
        if type(self) is str and n in METHODS:
            return METHODS[n](self, *a, **k)
        if isinstance(self, re.Pattern):
            if n in rx.FUNCS:
                return rx.FUNCS[n](self, *a, **k)
        if isinstance(self, dict) and n in ('get', 'pop', 'setdefault'):
            kk, found = key(self, a[0]) if deep(a[0]) else (a[0], a[0] in self)
            return f(kk, *a[1:], **k)
        if isinstance(self, dict) and n == '__contains__':
            return key(self, a[0])[1]
        if isinstance(self, set) and n in ('add', 'discard', 'remove') and deep(a[0]):
            return f(key(self, a[0])[0])
    if isinstance(f, types.MethodDescriptorType) and getattr(f, '__objclass__', None) is str and f.__name__ in METHODS:
        return METHODS[f.__name__](*a, **k)
    if f in (getattr, hasattr) and deep(a[1]):
        names = dir(a[0])
        for n in names:
            if isinstance(n, str) and ask(streq(n, a[1])):
                return f(a[0], n, *a[2:])
        if f is hasattr:
            return False
        if len(a) > 2:
            return a[2]
        raise AttributeError("no such attribute")
    if f is int:
        if type(a[0]) is SymStr:
            return to_int(*a, **k)
        return f(*a, **k) if not isinstance(a[0], SymInt) else a[0]
    if f is float:
        if type(a[0]) is SymStr:
            return to_float(a[0])
        return a[0] if isinstance(a[0], SymFloat) else float(_conc(a[0]))
    if f is complex:
        return complex(_conc(a[0]))
    if f is str:
        return show(a[0])
    if f is repr:
        return repr_(a[0])
    if f is format:
        return format1(a[0], None, a[1] if len(a) > 1 else '')
    if f is ord:
        return ord(concretize(a[0]))
    if f is set or f is frozenset:
        out = []
        for x in a[0]:
            if not any(x == y for y in out):
                out.append(x)
        return f(out)
    if f is bool:
        return bool(a[0])
    if isinstance(f, types.FunctionType) or isinstance(f, types.MethodType):
        g = f.__func__ if isinstance(f, types.MethodType) else f
        m = getattr(g, '__module__', '') or ''
        code = getattr(g, '__code__', None)
        if m == 're':
            return rx.modcall(g.__name__, a, dict(k))
        if m == 'logging' or isinstance(self, logging.Logger):
            return None
        if code is not None and (code.co_filename.startswith(SCRIPTS) or '/vt/' in code.co_filename or '/checks/' in code.co_filename):
            return f(*a, **k)
        return f(*[_conc(x) for x in a], **{n: _conc(x) for n, x in k.items()})
    if isinstance(self, logging.Logger):
        return None
    if f is print:
        return None
    if f in (open, os.fspath):
        return f(*[_conc(x) for x in a], **{n: _conc(x) for n, x in k.items()})
    return f(*a, **k)


RT = dict(_vt_call=vt_call, _vt_in=vt_in, _vt_mod=vt_mod, _vt_fstr=vt_fstr, _vt_get=vt_get, _vt_set=vt_set, _vt_exc=vt_exc)


# ------------------------------------------------------------------ source transformation
class Tr(ast.NodeTransformer):
    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'isinstance', 'len',
                                                          'issubclass', 'type', 'id'):
            return n
        return ast.copy_location(ast.Call(func=self._n('_vt_call'), args=[n.func] + n.args, keywords=n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.copy_location(ast.Call(func=self._n('_vt_in'), args=[n.left, n.comparators[0]], keywords=[]), n)
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), n)
            return c
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self._n('_vt_mod'), args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion if v.conversion != -1 else None), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=self._n('_vt_fstr'), args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[]), n)

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(ast.Call(func=self._n('_vt_get'), args=[n.value, n.slice], keywords=[]), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(func=self._n('_vt_set'), args=[t.value, t.slice, n.value], keywords=[])), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(ast.Call(func=self._n('_vt_exc'), args=[], keywords=[])), n.body[0]))
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        deco = n.decorator_list
        n.decorator_list = []
        self.generic_visit(n)
        n.decorator_list = deco
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        warnings.simplefilter("ignore")
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(RT)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        parts = name.split('.')
        base = os.path.join(SCRIPTS, *parts)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(name, base + '.py'))
        if path is not None:
            for d in path:
                if str(d).startswith(SCRIPTS):
                    q = os.path.join(d, parts[-1] + '.py')
                    if os.path.isfile(q):
                        return importlib.util.spec_from_file_location(name, q, loader=Loader(name, q))
        # modules on sys.path entries inside scripts
        for d in sys.path:
            if d.startswith(SCRIPTS) and len(parts) == 1:
                q = os.path.join(d, name + '.py')
                if os.path.isfile(q):
                    return importlib.util.spec_from_file_location(name, q, loader=Loader(name, q))
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for d in (SCRIPTS, os.path.join(SCRIPTS, 'parse_tools'), os.path.join(SCRIPTS, 'fortran_tools')):
        if d not in sys.path:
            sys.path.insert(1, d)
    sys.meta_path.insert(0, Finder())
    logging.disable(logging.CRITICAL)


def load(name):
    """Import a module of /repo/scripts, instrumented."""
    install()
    import importlib as il
    return il.import_module(name)
