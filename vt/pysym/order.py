"""The order in which unordered things are visited, as a symbolic choice.

The modules of /repo/scripts are loaded with `set` (displays, comprehensions and calls) replaced by OSet, a set whose iteration order is
the order of insertion unless the current Plan says otherwise; os.listdir and glob.glob called from those modules are treated alike.  A
Plan is consulted at every visit of two or more elements; sites are the places of the visits.
"""
import ast
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings
from ..runner import REPO

SCRIPTS = os.path.join(REPO, 'scripts')
DIRS = (SCRIPTS, os.path.join(SCRIPTS, 'parse_tools'), os.path.join(SCRIPTS, 'fortran_tools'))


class Plan:
    """choose(site number) -> how to permute there ('' for not at all)."""
    def __init__(self, choose=None):
        self.choose = choose
        self.sites = {}

    def visit(self, site, items):
        if site not in self.sites:
            self.sites[site] = len(self.sites)
        if self.choose is None:
            return items
        how = self.choose(self.sites[site])
        if how == 'reverse':
            return items[::-1]
        if how == 'rotate':
            k = max(1, len(items) // 2)
            return items[k:] + items[:k]
        return items


_plan = Plan()


def _site():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    return '%s:%d' % (os.path.relpath(f.f_code.co_filename, SCRIPTS), f.f_lineno)


def _fixed(x):
    """Whether the hash of x is the same in every run."""
    return isinstance(x, (int, float, bool, type(None)))


class OSet(set):
    """A set that remembers the order of insertion (its elements are also in the underlying set)."""
    def __init__(self, it=()):
        super().__init__()
        self._d = {}
        for x in it:
            self.add(x)

    def add(self, x):
        self._d[x] = None
        super().add(x)

    def discard(self, x):
        self._d.pop(x, None)
        super().discard(x)

    def remove(self, x):
        super().remove(x)
        self._d.pop(x, None)

    def clear(self):
        self._d.clear()
        super().clear()

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def __iter__(self):
        items = list(self._d)
        if len(items) > 1 and not all(_fixed(x) for x in items):
            items = _plan.visit(_site(), items)
        return iter(items)

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self) if self._d else 'set()'

    def copy(self):
        o = OSet()
        for x in self._d:
            o.add(x)
        return o

    __copy__ = copy

    def __reduce__(self):
        return (OSet, (list(self._d),))

    def __deepcopy__(self, memo):
        import copy
        o = OSet()
        for x in self._d:
            o.add(copy.deepcopy(x, memo))
        return o

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        o = self.copy()
        o.update(*its)
        return o

    def intersection(self, *its):
        its = [set.union(set(), it) if not isinstance(it, (set, dict, frozenset)) else it for it in its]
        o = OSet()
        for x in self._d:
            if all(x in it for it in its):
                o.add(x)
        return o

    def difference(self, *its):
        drop = set()
        for it in its:
            drop.update(it._d if isinstance(it, OSet) else it)
        o = OSet()
        for x in self._d:
            if x not in drop:
                o.add(x)
        return o

    def symmetric_difference(self, it):
        a = OSet(it)
        return self.difference(a).union(a.difference(self))

    def difference_update(self, *its):
        for it in its:
            for x in list(it._d if isinstance(it, OSet) else it):
                self.discard(x)

    def intersection_update(self, *its):
        keep = self.intersection(*its)
        for x in list(self._d):
            if x not in keep:
                self.discard(x)

    def symmetric_difference_update(self, it):
        new = self.symmetric_difference(it)
        self.clear()
        self.update(new)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ror__(self, o):
        return OSet(o).union(self)

    def __rand__(self, o):
        return OSet(o).intersection(self)

    def __rsub__(self, o):
        return OSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class Tr(ast.NodeTransformer):
    def _call(self, n, arg):
        return ast.copy_location(ast.Call(func=ast.Name(id='_vt_oset', ctx=ast.Load()), args=[arg], keywords=[]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call(n, ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call(n, ast.ListComp(elt=n.elt, generators=n.generators))

    def visit_Name(self, n):
        if n.id == 'set' and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name(id='_vt_oset', ctx=ast.Load()), n)
        return n

    def visit_Call(self, n):
        # isinstance(x, set) keeps the built-in type
        if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') and len(n.args) == 2:
            n.args[0] = self.visit(n.args[0])
            return n
        return self.generic_visit(n)


_code = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _code:
            warnings.simplefilter("ignore")
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read(), path)
            _code[path] = compile(ast.fix_missing_locations(Tr().visit(tree)), path, 'exec', dont_inherit=True)
        return _code[path]

    def exec_module(self, module):
        module.__dict__['_vt_oset'] = OSet
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        for d in ([p for p in path if str(p).startswith(SCRIPTS)] if path is not None else DIRS):
            base = os.path.join(d, name.split('.')[-1])
            if os.path.isfile(os.path.join(base, '__init__.py')):
                p = os.path.join(base, '__init__.py')
                return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p), submodule_search_locations=[base])
            if os.path.isfile(base + '.py'):
                return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(name, base + '.py'))
        return None


_real = (os.listdir, glob.glob)


def _from_scripts():
    return sys._getframe(2).f_code.co_filename.startswith(SCRIPTS)


def _listdir(*a, **k):
    r = _real[0](*a, **k)
    return _plan.visit(_site(), sorted(r)) if _from_scripts() and len(r) > 1 else r


def _glob(*a, **k):
    r = _real[1](*a, **k)
    return _plan.visit(_site(), sorted(r)) if _from_scripts() and len(r) > 1 else r


def fresh():
    """Forget the modules of the tree, so that the next run starts as a new process does."""
    for n, m in list(sys.modules.items()):
        if (getattr(m, '__file__', None) or '').startswith(SCRIPTS):
            del sys.modules[n]


def run(plan, argv, name, entry, cwd):
    """Run entry() of the tree's module <name> as a program with the arguments argv in cwd; returns how it ended."""
    global _plan
    saved = (sys.argv, os.getcwd(), list(sys.path), _plan, list(sys.meta_path), os.listdir, glob.glob, sys.stdout, sys.stderr)
    fresh()
    known = set(sys.modules)
    sys.meta_path.insert(0, Finder())
    os.chdir(cwd)
    sys.argv = list(argv)
    sys.path[:0] = [SCRIPTS]
    os.listdir, glob.glob, _plan = _listdir, _glob, plan
    logging.disable(logging.CRITICAL)
    try:
        with open(os.devnull, 'w') as null:
            sys.stdout = sys.stderr = null
            import importlib
            m = importlib.import_module(name)
            try:
                entry(m) if callable(entry) else getattr(m, entry)()
                return 'ended'
            except SystemExit as e:
                return 'exit %s' % (e.code,)
            except Exception as e:
                if type(e).__module__.startswith('vt.') or isinstance(e, RecursionError):
                    raise
                return 'raised %s' % type(e).__name__
    finally:
        sys.argv, _, sys.path[:], _plan, sys.meta_path[:], os.listdir, glob.glob, sys.stdout, sys.stderr = saved
        os.chdir(saved[1])
        for n in [n for n, m in sys.modules.items() if n not in known and (getattr(m, '__file__', None) or '').startswith((SCRIPTS, cwd))]:
            del sys.modules[n]


def tree(d):
    o = {}
    for r, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, errors='replace') as h:
                o[os.path.relpath(p, d)] = h.read()
    return o
