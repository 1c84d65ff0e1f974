"""Symbolic interpreter for the Fortran subset of parser.py.

Scalars are Python values or z3 expressions; array extents, pointers and allocation states are concrete on every path (symbolic
subscripts fork through the path explorer, after an out-of-bounds check).  Anything that a Fortran run could not survive (out of
bounds, unallocated, dangling, absent optional, double allocation, shape mismatch ...) raises Fault.
"""
import re
import math
from fractions import Fraction
import z3
from .parser import parse_source, Proc, TypeDef, Module, Decl, TypeSpec, FParseError
from ..engine import Inconclusive


class Fault(Exception):
    """The Fortran program does something invalid."""


class Stop(Exception):
    """STOP / ERROR STOP executed."""


class Unsupported(Inconclusive):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


class _Absent:
    def __repr__(self):
        return 'ABSENT'


UNDEF = _Undef()
ABSENT = _Absent()


class SymC:
    """Character value with symbolic elements; c: list of 1-character str or z3 BitVec(8)."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    def __len__(self):
        return len(self.c)

    def __repr__(self):
        return 'SymC(%r)' % (self.c,)


def chars(v):
    return list(v) if isinstance(v, str) else v.c


def mkchar(c):
    if all(isinstance(x, str) for x in c):
        return ''.join(c)
    return SymC(c)


def is_char(v):
    return isinstance(v, (str, SymC))


class Cell:
    __slots__ = ('v', 't', 'clen', 'dead', 'tag', 'kind')

    def __init__(self, t, v=UNDEF, clen=None, kind=None):
        self.t = t
        self.v = v
        self.clen = clen
        self.dead = False
        self.tag = None
        self.kind = kind

    def __repr__(self):
        return '<%s %r>' % (self.t, self.v)


class Arr:
    __slots__ = ('cells', 'shape', 'lb', 't', 'section')

    def __init__(self, cells, shape, lb=None, t=None):
        self.cells = cells
        self.shape = tuple(shape)
        self.lb = tuple(lb) if lb is not None else (1,) * len(self.shape)
        self.t = t

    def __repr__(self):
        return 'Arr%s%s' % (self.shape, self.cells)

    def values(self):
        return [c.v for c in self.cells]


class DTObj:
    __slots__ = ('type', 'f')

    def __init__(self, type, f):
        self.type = type
        self.f = f

    def __repr__(self):
        return 'DT:%s' % self.type.name


class Slot:
    """A named entity.  val: Cell/Arr (plain), or None/Cell/Arr for allocatable and pointer, ABSENT, or a procedure."""
    __slots__ = ('name', 'decl', 'val', 'rank', 'alloc', 'ptr', 'scope', 'const')

    def __init__(self, name, decl, rank, alloc, ptr, scope):
        self.name = name
        self.decl = decl
        self.rank = rank
        self.alloc = alloc
        self.ptr = ptr
        self.scope = scope
        self.val = None
        self.const = False

    def __repr__(self):
        return 'Slot(%s=%r)' % (self.name, self.val)


class PFn:
    """A Python implemented procedure (scheme hook etc.)."""
    def __init__(self, fn):
        self.fn = fn


_TT = {'integer': 'i', 'real': 'r', 'logical': 'l', 'character': 'c', 'type': 'd', 'complex': 'z', 'procedure': 'p'}


class Scope:
    """Static scope of a module at run time."""
    def __init__(self, world, mod):
        self.world = world
        self.mod = mod
        self.vars = {}
        self.busy = set()

    def lookup_local(self, name):
        m = self.mod
        if name in self.vars:
            return self.vars[name]
        if name in m.decls:
            if name in self.busy:
                raise Unsupported("circular initialisation of %s" % name)
            self.busy.add(name)
            s = self.world.make_var(m.decls[name], self)
            self.busy.discard(name)
            self.vars[name] = s
            return s
        if name in m.interfaces:
            # structure constructor overloads are not supported; generic wins over type
            return ('generic', name, self)
        if name in m.types:
            td = m.types[name]
            td.module = m
            return td
        if name in m.procs:
            return m.procs[name]
        return None

    def lookup(self, name, seen=None):
        r = self.lookup_local(name)
        if r is not None:
            return r
        return self.world.lookup_uses(self.mod.uses, name, seen)

    # frame protocol
    @property
    def modscope(self):
        return self


class Frame:
    def __init__(self, world, proc, parent):
        self.world = world
        self.proc = proc
        self.parent = parent      # Frame of host procedure or Scope of module
        self.vars = {}
        self.pending = {}

    @property
    def modscope(self):
        p = self.parent
        return p.modscope if p is not None else None

    def lookup(self, name, seen=None):
        v = self.vars.get(name)
        if v is not None:
            return v
        d = self.pending.get(name)
        if d is not None:
            self.pending.pop(name)
            return self.world.make_local(self, d)
        pr = self.proc
        if name in pr.interfaces:
            return ('generic', name, self)
        if name in pr.types:
            return pr.types[name]
        if name in pr.procs:
            return ('internal', pr.procs[name], self)
        r = self.world.lookup_uses(pr.uses, name, None)
        if r is not None:
            return r
        if self.parent is not None:
            return self.parent.lookup(name)
        return None


def zint(v):
    return isinstance(v, z3.ArithRef) and v.is_int()


def zreal(v):
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or zint(v) or isinstance(v, z3.BitVecRef)


def is_real(v):
    return isinstance(v, Fraction) or zreal(v)


def is_log(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def to_real(v):
    if isinstance(v, int):
        return Fraction(v)
    if zint(v):
        return z3.ToReal(v)
    return v


def _frac(v):
    return z3.RealVal(v) if isinstance(v, Fraction) else v


UF = {}


def ufun(name):
    if name not in UF:
        UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return UF[name]


BUILTIN_MODULES = {
    'iso_fortran_env': dict(real32=4, real64=8, real128=16, int8=1, int16=2, int32=4, int64=8, error_unit=0,
                            output_unit=6, input_unit=5),
    'iso_c_binding': dict(c_int=4, c_int32_t=4, c_int64_t=8, c_long=8, c_double=8, c_float=4, c_bool=1, c_char=1),
    'omp_lib': {},
}

KIND_OF_D = 8


class Program:
    """Parsed sources (shared by all paths)."""
    def __init__(self, defs=None):
        self.modules = {}
        self.procs = {}
        self.defs = defs or {}

    def add_text(self, text, fname='?'):
        fp = parse_source(text, self.defs, fname)
        self.modules.update(fp.modules)
        self.procs.update(fp.procs)
        return fp

    def add_file(self, path):
        with open(path) as f:
            return self.add_text(f.read(), path)


class World:
    """Run-time state of one path."""
    def __init__(self, program, eng, max_iter=64, max_depth=200):
        self.p = program
        self.eng = eng
        self.scopes = {}
        self.saved = {}
        self.hooks = {}
        self.on_call = None
        self.max_iter = max_iter
        self.max_depth = max_depth
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.output = []
        self.where = None
        self.bindings_cache = {}
        self.bv = None              # width of integers as bit vectors (None: mathematical)
        self.intrinsics = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('in_')}

    # ------------------------------------------------------------ names
    def scope(self, modname):
        s = self.scopes.get(modname)
        if s is None:
            m = self.p.modules.get(modname)
            if m is None:
                return None
            s = self.scopes[modname] = Scope(self, m)
        return s

    def lookup_uses(self, uses, name, seen):
        for mod, only, items in uses:
            target = name
            if only:
                for loc, rem in items:
                    if loc == name:
                        target = rem
                        break
                else:
                    continue
            else:
                hit = False
                for loc, rem in items:
                    if loc == name:
                        target = rem
                        hit = True
                        break
                if not hit and any(rem == name for _, rem in items):
                    continue
            if mod in BUILTIN_MODULES and mod not in self.p.modules:
                b = BUILTIN_MODULES[mod]
                if target in b:
                    return ('const', b[target])
                continue
            sc = self.scope(mod)
            if sc is None:
                if only:
                    raise Unsupported("module %s not available (for %s)" % (mod, name))
                continue
            seen2 = set(seen or ())
            if (mod, target) in seen2:
                continue
            seen2.add((mod, target))
            r = sc.lookup(target, seen2)
            if r is not None:
                return r
        return None

    def var(self, modname, name):
        """Slot of a module variable."""
        sc = self.scope(modname.lower())
        if sc is None:
            raise Unsupported("no module %s" % modname)
        return sc.lookup(name.lower())

    # ------------------------------------------------------------ storage
    def make_cell(self, ts, scope, clen=None, init=True, dyn=None):
        t = _TT[ts.base]
        if t == 'd':
            if ts.dt == '*':
                raise Unsupported("class(*)")
            td = dyn or self.find_type(ts.dt, scope)
            return Cell('d', self.make_dt(td) if init else UNDEF)
        c = Cell(t, UNDEF, clen)
        if t == 'c':
            if clen is None:
                ln = ts.len
                if ln is None:
                    c.clen = 1
                elif ln == ':' or ln == '*':
                    c.clen = None
                else:
                    c.clen = self.cint(self.ev(ln, scope))
        return c

    def find_type(self, name, scope):
        td = scope.lookup(name)
        if not isinstance(td, TypeDef):
            # generic of the same name as a type: search the types directly
            if isinstance(td, tuple) and td[0] == 'generic':
                sc = td[2]
                ty = getattr(sc, 'mod', None) or sc.proc
                if name in ty.types:
                    t2 = ty.types[name]
                    t2.module = getattr(sc, 'mod', None)
                    return t2
            raise Unsupported("unknown type %s" % name)
        if td.module is None:
            td.where = scope        # a type defined in a procedure
        return td

    def type_scope(self, td):
        if td.module is None:
            for m in self.p.modules.values():
                if m.types.get(td.name) is td:
                    td.module = m
        if td.module is None and getattr(td, 'where', None) is not None:
            return td.where
        return self.scope(td.module.name)

    def parent_type(self, td):
        if td.parent is None:
            return None
        return self.find_type(td.parent, self.type_scope(td))

    def all_comps(self, td):
        p = self.parent_type(td)
        return (self.all_comps(p) if p is not None else []) + [(td, d) for d in td.comps]

    def make_dt(self, td):
        f = {}
        for owner, d in self.all_comps(td):
            f[d.name] = self.make_var(d, self.type_scope(owner), comp=True)
        return DTObj(td, f)

    def is_a(self, td, anc):
        while td is not None:
            if td.name == anc.name:
                return True
            td = self.parent_type(td)
        return False

    def binding(self, td, name):
        """(Proc, nopass) or ('generic', [..]) for a type-bound name."""
        t = td
        while t is not None:
            if name in t.procs:
                impl, nopass = t.procs[name]
                if impl is None:
                    raise Fault("deferred procedure %s of %s called" % (name, td.name))
                pr = self.type_scope(t).lookup(impl)
                return (pr, nopass)
            if name in t.generics:
                return ('generic', t.generics[name])
            t = self.parent_type(t)
        return None

    def make_var(self, d, scope, comp=False):
        """Create storage of a declared entity (module variable, component or local)."""
        attrs = d.attrs
        alloc = 'allocatable' in attrs
        ptr = 'pointer' in attrs
        rank = 0 if d.dims is None else len(d.dims)
        s = Slot(d.name, d, rank, alloc, ptr, scope)
        if d.ts.base == 'procedure':
            s.ptr = True
            s.val = None
            return s
        if alloc or ptr:
            s.val = None
            if ptr and d.pinit is not None and d.pinit[0] != 'index':
                s.val = self.ref(d.pinit, scope)
            if alloc and False:
                pass
            return s
        if rank == 0:
            if 'parameter' in attrs and d.ts.base == 'character' and d.ts.len == '*':
                v = self.ev(d.init, scope)
                s.val = Cell('c', v, len(v))
            else:
                s.val = self.make_cell(d.ts, scope)
                if d.init is not None:
                    self.store(s.val, self.ev(d.init, scope))
        else:
            if 'parameter' in attrs and d.dims[0] in (('star',),) or (d.dims[0][0] == 'slice' and d.dims[0][2] == ('star',)):
                v = self.ev(d.init, scope)
                lb = [self.cint(self.ev(d.dims[0][1], scope)) if d.dims[0][0] == 'slice' and d.dims[0][1] else 1]
                s.val = Arr(v.cells, v.shape, lb, v.t)
                return s
            lbs, shp = self.bounds(d.dims, scope)
            s.val = self.make_arr(d.ts, shp, lbs, scope)
            if d.init is not None:
                self.assign_ref(s.val, self.ev(d.init, scope))
        s.const = 'parameter' in attrs
        return s

    def make_arr(self, ts, shp, lbs, scope, clen=None, dyn=None):
        n = 1
        for x in shp:
            n *= x
        if n > 100000:
            raise Unsupported("array of %d elements" % n)
        return Arr([self.make_cell(ts, scope, clen, dyn=dyn) for _ in range(n)], shp, lbs, _TT[ts.base])

    def bounds(self, dims, scope):
        lbs, shp = [], []
        for d in dims:
            if d[0] == 'slice':
                lo = self.cint(self.ev(d[1], scope)) if d[1] is not None else 1
                if d[2] is None:
                    raise Unsupported("deferred shape without allocatable/pointer")
                hi = self.cint(self.ev(d[2], scope))
            else:
                lo = 1
                hi = self.cint(self.ev(d, scope))
            lbs.append(lo)
            shp.append(max(0, hi - lo + 1))
        return lbs, shp

    def cint(self, v):
        """Concrete integer (forks)."""
        if isinstance(v, int):
            return int(v)
        if v is UNDEF:
            raise Fault("undefined value used as bound or subscript (%s)" % self.at())
        if isinstance(v, z3.BitVecRef):
            r = self.eng.concretize(v)
            w = v.size()
            return r - (1 << w) if r >= (1 << (w - 1)) else r
        if is_sym(v):
            return self.eng.concretize(v)
        raise Unsupported("integer expected, found %r" % (v,))

    def at(self):
        return "%s line %s" % (self.where[0] if self.where else '?', self.where[1] if self.where else '?')

    # ------------------------------------------------------------ calls
    def resolve_proc(self, name, scope):
        return scope.lookup(name)

    def call(self, modname, name, *args, **kw):
        """Call a procedure from the harness; args are Slot/Cell/Arr/values."""
        sc = self.scope(modname.lower())
        if sc is None:
            raise Unsupported("no module %s" % modname)
        pr = sc.lookup(name.lower())
        if pr is None:
            raise Fault("no procedure %s in module %s" % (name, modname))
        return self.invoke(pr, [('py', a) for a in args], {k.lower(): ('py', v) for k, v in kw.items()}, None)

    def invoke(self, pr, args, kw, scope):
        """Bind and run.  args: list of AST or ('py', object)."""
        parent = None
        if isinstance(pr, tuple):
            if pr[0] == 'internal':
                _, pr, parent = pr
            elif pr[0] == 'generic':
                pr = self.pick_generic(pr, args, kw, scope)
        if isinstance(pr, Slot):
            if isinstance(pr.val, (Proc, tuple)):
                return self.invoke(pr.val, args, kw, scope)
            raise Fault("procedure pointer/dummy %s not associated" % pr.name)
        if isinstance(pr, PFn):
            return pr.fn(self, args, kw, scope)
        if not isinstance(pr, Proc):
            raise Unsupported("cannot call %r" % (pr,))
        if parent is None:
            parent = self.scope(pr.module.name) if pr.module is not None else None
        if 'elemental' in pr.prefix and scope is not None:
            r = self.try_elemental(pr, args, kw, scope, parent)
            if r is not NotImplemented:
                return r
        fr = Frame(self, pr, parent)
        n = len(pr.args)
        bound = {}
        if len(args) > n:
            raise Fault("too many arguments in call of %s" % pr.name)
        for nm, a in zip(pr.args, args):
            bound[nm] = a
        for k, a in kw.items():
            if k not in pr.args:
                raise Fault("%s has no dummy argument %s" % (pr.name, k))
            if k in bound:
                raise Fault("argument %s of %s given twice" % (k, pr.name))
            bound[k] = a
        # two passes: scalars first so that explicit shapes can use them
        later = []
        for nm in pr.args:
            d = pr.decls.get(nm)
            if d is None:
                # dummy procedure declared by interface
                d = Decl(nm, TypeSpec('procedure'), None, frozenset(), None, None, None, pr.no)
            if d.dims is not None and 'allocatable' not in d.attrs and 'pointer' not in d.attrs and \
                    not all(x[0] == 'slice' and x[2] is None for x in d.dims):
                later.append((nm, d))
                continue
            fr.vars[nm] = self.bind(fr, d, bound.get(nm), scope, pr)
        for nm, d in later:
            fr.vars[nm] = self.bind(fr, d, bound.get(nm), scope, pr)
        if pr.kind == 'function' and pr.name in self.p.modules:
            pass
        saved = self.saved.setdefault(id(pr), {})
        for nm in pr.order:
            if nm in fr.vars or nm in pr.args:
                continue
            d = pr.decls[nm]
            if nm in saved:
                fr.vars[nm] = saved[nm]
            else:
                fr.pending[nm] = d
        hook = self.hooks.get(pr.name)
        if self.on_call is not None:
            self.on_call(self, pr, fr)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth = 0
            raise Fault("recursion deeper than %d (%s)" % (self.max_depth, pr.name))
        wh = self.where
        if hook is not None:
            res = hook(self, fr)
        else:
            # automatic objects / initial values must be set at entry
            for nm in list(fr.pending):
                if nm in fr.pending:
                    d = fr.pending.pop(nm)
                    self.make_local(fr, d)
            self.block(pr.body, fr)
            res = fr.vars.get(pr.result) if pr.kind == 'function' else None
        self.depth -= 1
        self.where = wh
        return res

    def make_local(self, fr, d):
        saved = self.saved.setdefault(id(fr.proc), {})
        s = self.make_var(d, fr)
        fr.vars[d.name] = s
        if ('save' in d.attrs or d.init is not None) and 'parameter' not in d.attrs or \
                (d.pinit is not None and 'pointer' in d.attrs):
            saved[d.name] = s
        return s

    def try_elemental(self, pr, args, kw, scope, parent):
        actual = [(nm, a) for nm, a in zip(pr.args, args)] + list(kw.items())
        shp = None
        evd = []
        for nm, a in actual:
            r = self.ref(a, scope, soft=True) if a[0] != 'py' else a[1]
            if isinstance(r, Slot):
                r = r.val
            if isinstance(r, Arr):
                shp = r.shape
            evd.append((nm, r))
        if shp is None:
            return NotImplemented
        n = 1
        for x in shp:
            n *= x
        out = []
        for i in range(n):
            b = {}
            for nm, r in evd:
                b[nm] = ('py', r.cells[i] if isinstance(r, Arr) else r)
            res = self.invoke(pr, [], b, None)
            if pr.kind == 'function':
                v = self.val_of(res)
                c = Cell(self.tag(v), v)
                out.append(c)
        if pr.kind == 'function':
            return Arr(out, shp, t=out[0].t if out else None)
        return None

    def tag(self, v):
        if isinstance(v, DTObj):
            return 'd'
        if is_log(v):
            return 'l'
        if is_int(v):
            return 'i'
        if is_real(v):
            return 'r'
        if is_char(v):
            return 'c'
        return '?'

    def pick_generic(self, g, args, kw, scope):
        _, name, sc = g
        names = []
        seen = set()

        def collect(mod):
            if mod.name in seen:
                return
            seen.add(mod.name)
            names.extend((n, mod) for n in mod.interfaces.get(name, []))
            for u, only, items in getattr(mod, 'uses', []):
                if u in self.p.modules and (not only or any(l == name for l, r in items)):
                    collect(self.p.modules[u])
        owner = getattr(sc, 'mod', None)
        if owner is None:
            owner = sc.proc
        collect(owner)
        for n, mod in names:
            pr = None
            if isinstance(mod, Module):
                pr = self.scope(mod.name).lookup(n)
            else:
                pr = sc.lookup(n)
            if isinstance(pr, Proc) and self.matches(pr, args, kw, scope):
                return pr
        raise Fault("no specific procedure of generic %s matches" % name)

    def matches(self, pr, args, kw, scope):
        if len(args) > len(pr.args):
            return False
        given = dict(zip(pr.args, args))
        for k, v in kw.items():
            if k not in pr.args or k in given:
                return False
            given[k] = v
        for nm in pr.args:
            d = pr.decls.get(nm)
            if nm not in given:
                if d is None or 'optional' not in d.attrs:
                    return False
                continue
            a = given[nm]
            r = a[1] if a[0] == 'py' else self.ref(a, scope, soft=True)
            if isinstance(r, Slot):
                r = r.val if r.val is not None else r
            rank = len(r.shape) if isinstance(r, Arr) else (r.rank if isinstance(r, Slot) else 0)
            drank = 0 if d is None or d.dims is None else len(d.dims)
            if rank != drank:
                return False
            if isinstance(r, Arr):
                t = r.t
                v = r.cells[0].v if r.cells else None
            elif isinstance(r, Cell):
                t, v = r.t, r.v
            elif isinstance(r, Slot):
                t, v = _TT[r.decl.ts.base], None
            else:
                t, v = self.tag(r), r
            if d is not None and _TT[d.ts.base] != t:
                return False
            if t == 'd' and isinstance(v, DTObj):
                td = self.find_type(d.ts.dt, self.scope(pr.module.name) if pr.module else scope)
                if not self.is_a(v.type, td) or (not d.ts.poly and v.type.name != td.name):
                    return False
        return True

    # ---- argument association
    def bind(self, fr, d, a, scope, pr):
        name = d.name
        rank = 0 if d.dims is None else len(d.dims)
        alloc = 'allocatable' in d.attrs
        ptr = 'pointer' in d.attrs
        opt = 'optional' in d.attrs
        s = Slot(name, d, rank, alloc, ptr, fr)
        if a is None:
            if not opt:
                raise Fault("missing argument %s in call of %s" % (name, pr.name))
            s.val = ABSENT
            return s
        if d.ts.base == 'procedure' or (d.ts.base not in _TT):
            s.val = a[1] if a[0] == 'py' else self.ref_proc(a, scope)
            return s
        if alloc or ptr:
            src = a[1] if a[0] == 'py' else self.slot_of(a, scope, soft=True)
            if isinstance(src, Slot) and src.val is ABSENT:
                if not opt:
                    raise Fault("absent argument passed to %s of %s" % (name, pr.name))
                s.val = ABSENT
                return s
            if isinstance(src, Slot) and (src.alloc == alloc and src.ptr == ptr):
                if src.rank != rank:
                    raise Fault("rank mismatch for %s of %s" % (name, pr.name))
                if alloc and d.intent == 'out':
                    if src.val is not None:
                        self.kill(src.val)
                    src.val = None
                # share: alias slot object
                return src
            if a[0] == 'index' and a[1] == ('name', 'null'):
                s.val = None
                return s
            if ptr:
                if src is None and a[0] != 'py':
                    src = self.ref(a, scope)
                s.val = src.val if isinstance(src, Slot) else src
                return s
            raise Fault("argument %s of %s must be allocatable" % (name, pr.name))
        # ordinary dummy
        if a[0] == 'py':
            r = a[1]
            if isinstance(r, Slot):
                r = self.deref_arg(r, opt, name, pr)
        else:
            sl = self.slot_of(a, scope, soft=True)
            if isinstance(sl, Slot):
                r = self.deref_arg(sl, opt, name, pr)
            elif opt and self.lenient_sections is not None and self.unallocated_section(a, scope):
                self.lenient_sections.append((name, pr.name, self.at()))
                r = ABSENT
            else:
                r = self.ref(a, scope)
                if isinstance(r, Slot):
                    r = self.deref_arg(r, opt, name, pr)
        if r is ABSENT:
            s.val = ABSENT
            return s
        if d.intent in ('out', 'inout') and a[0] != 'py':
            self.check_assignable(a, scope)
        if isinstance(r, Cell):
            if r.dead:
                raise Fault("deallocated object passed as %s to %s (%s)" % (name, pr.name, self.at()))
        elif not isinstance(r, Arr):
            if d.intent in ('out', 'inout'):
                raise Fault("expression passed to intent(%s) argument %s of %s" % (d.intent, name, pr.name))
            t = _TT[d.ts.base]
            if t == 'r' and is_int(r) or t == 'i' and is_real(r) or (t == 'c') != is_char(r) and r is not UNDEF:
                raise Fault("type mismatch for argument %s of %s" % (name, pr.name))
            c = Cell(t, r, len(r) if is_char(r) else None)
            r = c
        # rank
        if rank == 0:
            if isinstance(r, Arr):
                raise Fault("array passed to scalar argument %s of %s (%s)" % (name, pr.name, self.at()))
            t = _TT[d.ts.base]
            if r.t != t:
                raise Fault("type mismatch for argument %s of %s: %s given, %s expected" % (name, pr.name, r.t, t))
            if t == 'd' and isinstance(r.v, DTObj):
                sc = fr
                td = self.find_type(d.ts.dt, sc)
                if not self.is_a(r.v.type, td):
                    raise Fault("derived type mismatch for argument %s of %s" % (name, pr.name))
                if d.intent == 'out':
                    r.v = self.make_dt(r.v.type)
            if t == 'c' and d.ts.len not in (None, '*', ':'):
                ln = self.cint(self.ev(d.ts.len, fr))
                have = r.clen if r.clen is not None else (len(r.v) if is_char(r.v) else None)
                if have is not None and have < ln:
                    raise Fault("character argument %s of %s shorter (%d) than the dummy (%d)" % (name, pr.name, have, ln))
                if have is not None and have != ln:
                    # view on the first ln characters
                    if d.intent == 'in' or d.intent is None and False:
                        c2 = Cell('c', self.fit(r.v, ln) if is_char(r.v) else r.v, ln)
                        r = c2
                    else:
                        raise Unsupported("character length mismatch for %s of %s" % (name, pr.name))
            s.val = r
            return s
        if isinstance(r, Cell):
            raise Fault("scalar passed to array argument %s of %s (%s)" % (name, pr.name, self.at()))
        if r.t not in (None, _TT[d.ts.base]):
            raise Fault("type mismatch for array argument %s of %s" % (name, pr.name))
        if any(c.dead for c in r.cells):
            raise Fault("deallocated array passed as %s to %s (%s)" % (name, pr.name, self.at()))
        if all(x[0] == 'slice' and x[2] is None for x in d.dims):
            if len(r.shape) != rank:
                raise Fault("rank mismatch for argument %s of %s: %d given, %d expected" % (name, pr.name, len(r.shape), rank))
            lbs = [self.cint(self.ev(x[1], fr)) if x[1] is not None else 1 for x in d.dims]
            s.val = Arr(r.cells, r.shape, lbs, r.t)
        else:
            lbs, shp = [], []
            n = 1
            for i, x in enumerate(d.dims):
                if x == ('star',) or (x[0] == 'slice' and x[2] == ('star',)):
                    lo = self.cint(self.ev(x[1], fr)) if x[0] == 'slice' and x[1] is not None else 1
                    ext = len(r.cells) // max(n, 1)
                else:
                    l1, s1 = self.bounds([x], fr)
                    lo, ext = l1[0], s1[0]
                lbs.append(lo)
                shp.append(ext)
                n *= ext
            if n > len(r.cells):
                raise Fault("array argument %s of %s has %d elements, %d needed" % (name, pr.name, len(r.cells), n))
            if len(r.shape) == rank and tuple(shp) != r.shape and getattr(self, 'strict_shapes', False):
                raise Fault("array argument %s of %s has shape %s, dummy has %s" % (name, pr.name, r.shape, tuple(shp)))
            s.val = Arr(r.cells[:n], shp, lbs, r.t)
        return s

    lenient_sections = None       # list: sections of unallocated arrays passed to optional dummies are recorded and absent

    def unallocated_section(self, a, scope):
        if a[0] != 'index':
            return False
        try:
            sl = self.slot_of(a[1], scope, soft=True)
        except Fault:
            return False
        return isinstance(sl, Slot) and sl.alloc and sl.val is None

    def deref_arg(self, sl, opt, name, pr):
        v = sl.val
        if v is ABSENT:
            if not opt:
                raise Fault("absent optional %s passed to required argument %s of %s" % (sl.name, name, pr.name))
            return ABSENT
        if v is None:
            if opt:
                return ABSENT
            raise Fault("%s %s passed to argument %s of %s (%s)" %
                        ('unallocated' if sl.alloc else 'disassociated pointer', sl.name, name, pr.name, self.at()))
        return v

    def ref_proc(self, a, scope):
        if a[0] == 'name':
            r = scope.lookup(a[1])
            if isinstance(r, Slot):
                return r.val
            return r
        raise Unsupported("procedure argument %r" % (a,))

    def kill(self, ref):
        if isinstance(ref, Cell):
            ref.dead = True
            if isinstance(ref.v, DTObj):
                self.kill_dt(ref.v)
        elif isinstance(ref, Arr):
            for c in ref.cells:
                c.dead = True
                if isinstance(c.v, DTObj):
                    self.kill_dt(c.v)

    def kill_dt(self, o):
        for s in o.f.values():
            if s.alloc and s.val is not None:
                self.kill(s.val)
            elif not s.alloc and not s.ptr and s.val is not None:
                self.kill(s.val)

    # ------------------------------------------------------------ designators
    def slot_of(self, e, scope, soft=False):
        """Slot designated by e (a whole variable or component), or None."""
        k = e[0]
        if k == 'name':
            r = scope.lookup(e[1])
            if isinstance(r, Slot):
                return r
            if r is None and not soft:
                raise Fault("undeclared name %s (%s)" % (e[1], self.at()))
            return None
        if k == 'member':
            b = self.base_obj(e[1], scope, soft)
            if isinstance(b, DTObj):
                if e[2] in b.f:
                    return b.f[e[2]]
                return None
            return None
        return None

    def base_obj(self, e, scope, soft=False):
        """DTObj (or Arr of DT cells) a member access works on."""
        r = self.ref(e, scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if isinstance(r, Cell):
            if r.dead:
                raise Fault("use of deallocated object (%s)" % self.at())
            if isinstance(r.v, DTObj):
                return r.v
            raise Fault("member access on a non-derived-type object (%s)" % self.at())
        return r

    def need(self, s):
        """Value reference of a slot, faulting if not there."""
        v = s.val
        if v is None:
            raise Fault("%s %s used (%s)" % ('unallocated' if s.alloc else 'disassociated pointer', s.name, self.at()))
        if v is ABSENT:
            raise Fault("absent optional argument %s used (%s)" % (s.name, self.at()))
        return v

    def ref(self, e, scope, soft=False):
        """Cell/Arr for designators, else a value.  soft: do not fault on unallocated whole variables (returns Slot)."""
        k = e[0]
        if k == 'py':
            return e[1]
        if k == 'name':
            r = scope.lookup(e[1])
            if isinstance(r, Slot):
                if soft and (r.val is None or r.val is ABSENT):
                    return r
                if isinstance(r.val, (Proc, PFn, tuple)):
                    return r
                return self.need(r)
            if isinstance(r, tuple) and r[0] == 'const':
                return r[1]
            if r is None:
                raise Fault("undeclared name %s (%s)" % (e[1], self.at()))
            raise Unsupported("name %s is not a variable" % e[1])
        if k == 'member':
            b = self.base_obj(e[1], scope)
            if isinstance(b, Arr):
                cells = []
                for c in b.cells:
                    sub = c.v.f[e[2]]
                    if isinstance(sub.val, Arr) or sub.val is None:
                        raise Unsupported("array component of array")
                    cells.append(sub.val)
                return Arr(cells, b.shape, t=cells[0].t if cells else None)
            if e[2] not in b.f:
                bd = self.binding(b.type, e[2])
                if bd is not None:
                    return self.call_bound(e[1], e[2], [], scope)
                # parent component
                p = self.parent_type(b.type)
                while p is not None:
                    if p.name == e[2]:
                        return Cell('d', b)
                    p = self.parent_type(p)
                raise Fault("type %s has no component %s (%s)" % (b.type.name, e[2], self.at()))
            sl = b.f[e[2]]
            if soft and sl.val is None:
                return sl
            return self.need(sl)
        if k == 'index':
            return self.ref_index(e, scope)
        if k == 'paren':
            return self.ev(e[1], scope)
        return self.ev(e, scope)

    def ref_index(self, e, scope):
        base, args = e[1], e[2]
        if base[0] == 'name':
            r = scope.lookup(base[1])
            if isinstance(r, Slot) and not isinstance(r.val, (Proc, PFn)) and not (isinstance(r.val, tuple)):
                if isinstance(scope, Frame) and scope.proc.kind == 'function' and base[1] == scope.proc.name and \
                        scope.proc.result == base[1] and r.rank == 0 and r.decl.ts.base != 'character':
                    pr = scope.parent.lookup(base[1])
                    return self.fn_result(self.invoke(pr, *self.split_args(args), scope))
                b = self.need(r)
                return self.subscript(b, args, scope)
            if r is None or (isinstance(r, tuple) and r[0] == 'const'):
                fn = self.intrinsics.get(base[1])
                if fn is None:
                    raise Fault("undeclared function or array %s (%s)" % (base[1], self.at()))
                return fn(args, scope)
            if isinstance(r, TypeDef):
                return self.constructor(r, args, scope)
            if isinstance(r, tuple) and r[0] == 'generic':
                try:
                    pr = self.pick_generic(r, *self.split_args(args), scope)
                except Fault:
                    # structure constructor of the same name
                    try:
                        td = self.find_type(base[1], scope)
                    except Inconclusive:
                        raise
                    return self.constructor(td, args, scope)
                return self.fn_result(self.invoke(pr, *self.split_args(args), scope))
            return self.fn_result(self.invoke(r, *self.split_args(args), scope))
        if base[0] == 'member':
            b = self.base_obj(base[1], scope)
            if isinstance(b, DTObj):
                if base[2] in b.f:
                    sl = b.f[base[2]]
                    if sl.decl.ts.base == 'procedure':
                        return self.fn_result(self.invoke(sl.val, *self.split_args(args), scope))
                    return self.subscript(self.need(sl), args, scope)
                return self.fn_result(self.call_bound(base[1], base[2], args, scope))
            r = self.ref(base, scope)
            return self.subscript(r, args, scope)
        b = self.ref(base, scope)
        return self.subscript(b, args, scope)

    def fn_result(self, r):
        """Function result slot -> reference or value usable in expressions."""
        if isinstance(r, Slot):
            if r.ptr or r.alloc:
                return r
            return self.val_of(r) if isinstance(r.val, Cell) else r.val
        return r

    def call_bound(self, objexpr, name, args, scope):
        ob = self.ref(objexpr, scope)
        if isinstance(ob, Slot):
            ob = self.need(ob)
        if isinstance(ob, Cell):
            o = ob.v
        else:
            raise Unsupported("type-bound call on %r" % (ob,))
        bd = self.binding(o.type, name)
        if bd is None:
            raise Fault("type %s has no binding %s (%s)" % (o.type.name, name, self.at()))
        pos, kw = self.split_args(args)
        if bd[0] == 'generic':
            for cand in bd[1]:
                b2 = self.binding(o.type, cand)
                if b2 is not None and b2[0] != 'generic' and self.matches(b2[0], ([] if b2[1] else [('py', ob)]) + pos, kw, scope):
                    bd = b2
                    break
            else:
                raise Fault("no specific binding of %s%%%s matches" % (o.type.name, name))
        pr, nopass = bd
        if pr is None:
            raise Unsupported("binding %s not found" % name)
        return self.invoke(pr, pos if nopass else [('py', ob)] + pos, kw, scope)

    def split_args(self, args):
        pos, kw = [], {}
        for a in args:
            if a[0] == 'kw':
                kw[a[1]] = a[2]
            else:
                if kw:
                    raise Fault("positional argument after keyword argument (%s)" % self.at())
                pos.append(a)
        return pos, kw

    def constructor(self, td, args, scope):
        o = self.make_dt(td)
        names = [d.name for _, d in self.all_comps(td)]
        i = 0
        for a in args:
            if a[0] == 'kw':
                n, ex = a[1], a[2]
            else:
                n, ex = names[i], a
                i += 1
            sl = o.f[n]
            if sl.ptr:
                sl.val = self.target_of(ex, scope)
            else:
                self.assign_slot(sl, self.ev(ex, scope))
        return o

    def subscript(self, b, args, scope):
        if isinstance(b, Slot):
            b = self.need(b)
        if is_char(b):
            return self.substring(b, args, scope)
        if isinstance(b, Cell):
            if b.dead:
                raise Fault("use of deallocated object (%s)" % self.at())
            if b.t == 'c':
                return SubStr(self, b, args, scope)
            raise Fault("subscript on a scalar (%s)" % self.at())
        if len(args) != len(b.shape):
            raise Fault("wrong number of subscripts (%s)" % self.at())
        sel = []
        outshape = []
        stride = 1
        idxs = []
        for d, a in enumerate(args):
            lb, ext = b.lb[d], b.shape[d]
            ub = lb + ext - 1
            if a[0] == 'slice':
                lo = self.cint_in(self.ev(a[1], scope)) if a[1] is not None else lb
                hi = self.cint_in(self.ev(a[2], scope)) if a[2] is not None else ub
                st = self.cint(self.ev(a[3], scope)) if a[3] is not None else 1
                rng = list(range(lo, hi + 1, st)) if st > 0 else list(range(lo, hi - 1, st))
                for x in (rng[:1] + rng[-1:]):
                    if x < lb or x > ub:
                        raise Fault("section %d:%d outside bounds %d:%d of dimension %d (%s)" % (lo, hi, lb, ub, d + 1, self.at()))
                idxs.append([x - lb for x in rng])
                outshape.append(len(rng))
            else:
                v = self.ev(a, scope)
                if isinstance(v, Arr):
                    xs = [self.cint(c.v) for c in v.cells]
                    for x in xs:
                        if x < lb or x > ub:
                            raise Fault("vector subscript %d outside bounds %d:%d (%s)" % (x, lb, ub, self.at()))
                    idxs.append([x - lb for x in xs])
                    outshape.append(len(xs))
                    continue
                if v is UNDEF:
                    raise Fault("undefined subscript (%s)" % self.at())
                if is_sym(v):
                    if self.eng.branch(z3.Or(v < lb, v > ub)):
                        raise Fault("subscript outside bounds %d:%d of dimension %d (%s)" % (lb, ub, d + 1, self.at()))
                    v = self.cint(v)
                if v < lb or v > ub:
                    raise Fault("subscript %d outside bounds %d:%d of dimension %d (%s)" % (v, lb, ub, d + 1, self.at()))
                idxs.append([v - lb])
        # enumerate column-major
        strides = []
        st = 1
        for x in b.shape:
            strides.append(st)
            st *= x
        offs = [0]
        for d in range(len(args) - 1, -1, -1):
            pass
        offs = [0]
        for d in range(len(args)):
            offs = [o + i * strides[d] for i in idxs[d] for o in offs] if False else _combine(offs, idxs[d], strides[d])
        cells = [b.cells[o] for o in offs]
        if not outshape:
            c = cells[0]
            if c.dead:
                raise Fault("use of deallocated array element (%s)" % self.at())
            return c
        return Arr(cells, outshape, t=b.t)

    def cint_in(self, v):
        return self.cint(v)

    def substring(self, s, args, scope):
        if len(args) != 1:
            raise Fault("bad substring (%s)" % self.at())
        a = args[0]
        cs = chars(s)
        n = len(cs)
        if a[0] != 'slice':
            raise Fault("bad substring (%s)" % self.at())
        lo = self.cint(self.ev(a[1], scope)) if a[1] is not None else 1
        hi = self.cint(self.ev(a[2], scope)) if a[2] is not None else n
        if hi < lo:
            return ''
        if lo < 1 or hi > n:
            raise Fault("substring (%d:%d) outside 1:%d (%s)" % (lo, hi, n, self.at()))
        return mkchar(cs[lo - 1:hi])

    # ------------------------------------------------------------ values
    def val_of(self, r):
        """Value of a reference."""
        if isinstance(r, Slot):
            r = self.need(r)
        if isinstance(r, Cell):
            if r.dead:
                raise Fault("use of deallocated object (%s)" % self.at())
            return r.v
        if isinstance(r, SubStr):
            return r.get()
        return r

    def ev(self, e, scope):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return e[1]
        if k == 'str':
            return e[1]
        if k == 'log':
            return e[1]
        if k in ('name', 'member', 'index'):
            return self.val_of(self.ref(e, scope))
        if k == 'paren':
            return self.ev(e[1], scope)
        if k == 'py':
            return self.val_of(e[1])
        if k == 'bin':
            return self.binop(e[1], e[2], e[3], scope)
        if k == 'un':
            v = self.ev(e[2], scope)
            if isinstance(v, Arr):
                return self.map1(lambda x: self.unop(e[1], x), v)
            return self.unop(e[1], v)
        if k == 'array':
            cells = []
            for it in e[1]:
                if it[0] == 'paren' and False:
                    pass
                v = self.ev(it, scope)
                if isinstance(v, Arr):
                    cells.extend(Cell(c.t, c.v, c.clen) for c in v.cells)
                else:
                    cells.append(Cell(self.tag(v), v, len(v) if is_char(v) else None))
            return Arr(cells, (len(cells),), t=cells[0].t if cells else (_TT[e[2].base] if e[2] else None))
        raise Unsupported("expression %r" % (e,))

    def unop(self, op, v):
        if v is UNDEF:
            return UNDEF
        if op == '-':
            return -v
        if op == '.not.':
            if isinstance(v, bool):
                return not v
            if not is_log(v):
                raise Fault(".not. applied to a non-logical (%s)" % self.at())
            return z3.Not(v)
        raise Unsupported(op)

    def map1(self, f, a):
        out = []
        for c in a.cells:
            v = f(c.v)
            out.append(Cell(self.tag(v), v, len(v) if is_char(v) else None))
        return Arr(out, a.shape, t=out[0].t if out else a.t)

    def map2(self, f, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                raise Fault("non-conforming arrays %s and %s (%s)" % (a.shape, b.shape, self.at()))
            vs = [f(x.v, y.v) for x, y in zip(a.cells, b.cells)]
            sh = a.shape
        elif isinstance(a, Arr):
            vs = [f(x.v, b) for x in a.cells]
            sh = a.shape
        else:
            vs = [f(a, y.v) for y in b.cells]
            sh = b.shape
        out = [Cell(self.tag(v), v) for v in vs]
        return Arr(out, sh, t=out[0].t if out else None)

    def binop(self, op, ea, eb, scope):
        a = self.ev(ea, scope)
        if op in ('.and.', '.or.') and not isinstance(a, Arr):
            a = self.truth(a)
            if op == '.and.' and not a:
                return False
            if op == '.or.' and a:
                return True
            b = self.ev(eb, scope)
            if not is_log(b) and b is not UNDEF and not isinstance(b, Arr):
                raise Fault("non-logical operand (%s)" % self.at())
            return b
        b = self.ev(eb, scope)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.map2(lambda x, y: self.bin2(op, x, y), a, b)
        return self.bin2(op, a, b)

    def bin2(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == '//':
            if not (is_char(a) and is_char(b)):
                raise Fault("concatenation of non-characters (%s)" % self.at())
            return mkchar(chars(a) + chars(b))
        if is_char(a) or is_char(b):
            if not (is_char(a) and is_char(b)):
                raise Fault("comparison of character with non-character (%s)" % self.at())
            if op in ('==', '/='):
                r = self.char_eq(a, b)
                if op == '==':
                    return r
                return (not r) if isinstance(r, bool) else z3.Not(r)
            if isinstance(a, str) and isinstance(b, str):
                n = max(len(a), len(b))
                a, b = a.ljust(n), b.ljust(n)
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            raise Unsupported("character comparison %s" % op)
        if op in ('.eqv.', '.neqv.'):
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) if op == '.eqv.' else (a != b)
            r = a == b if is_sym(a) else b == a
            return r if op == '.eqv.' else z3.Not(r)
        if op in ('.and.', '.or.'):
            a2 = self.truth(a)
            b2 = self.truth(b)
            return (a2 and b2) if op == '.and.' else (a2 or b2)
        if is_log(a) or is_log(b):
            raise Fault("numeric operator %s on logicals (%s)" % (op, self.at()))
        real = is_real(a) or is_real(b)
        if real:
            a, b = _frac(to_real(a)) if is_sym(b) else to_real(a), _frac(to_real(b)) if is_sym(a) else to_real(b)
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
                raise Unsupported("bit-vector to real")
        if op == '+':
            return self.wrap(a + b)
        if op == '-':
            return self.wrap(a - b)
        if op == '*':
            return self.wrap(a * b)
        if op == '/':
            if real:
                if not is_sym(b):
                    if b == 0:
                        raise Fault("division by zero (%s)" % self.at())
                else:
                    if self.eng.branch(b == 0):
                        raise Fault("division by zero (%s)" % self.at())
                return a / b
            return self.idiv(a, b)
        if op == '**':
            if is_sym(b):
                raise Unsupported("symbolic exponent")
            if isinstance(b, Fraction):
                if b.denominator == 1 and not is_sym(a):
                    return Fraction(a) ** int(b)
                if not is_sym(a):
                    return Fraction(float(a) ** float(b)).limit_denominator(10**15)
                return ufun('pow_%s' % b)(a)
            if is_sym(a):
                if b < 0:
                    den = self.bin2('**', a, -b)
                    return self.bin2('/', Fraction(1) if is_real(a) else 1, den)
                r = Fraction(1) if is_real(a) else 1
                for _ in range(b):
                    r = r * a if is_sym(r) else a
                if b == 0:
                    return r
                return r
            if isinstance(a, int) and b < 0:
                return int(Fraction(a) ** b)
            return a ** b
        if op == '==':
            return self.zb(a == b)
        if op == '/=':
            return self.zb(a != b)
        if op == '<':
            return self.zb(a < b)
        if op == '<=':
            return self.zb(a <= b)
        if op == '>':
            return self.zb(a > b)
        if op == '>=':
            return self.zb(a >= b)
        raise Unsupported("operator %s" % op)

    def wrap(self, v):
        return v

    def zb(self, v):
        return v

    def idiv(self, a, b):
        if not is_sym(a) and not is_sym(b):
            if b == 0:
                raise Fault("integer division by zero (%s)" % self.at())
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if is_sym(b):
            if self.eng.branch(b == 0):
                raise Fault("integer division by zero (%s)" % self.at())
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            return a / b      # signed division truncates
        a_, b_ = (z3.IntVal(a) if not is_sym(a) else a), (z3.IntVal(b) if not is_sym(b) else b)
        aa, ab = z3.If(a_ >= 0, a_, -a_), z3.If(b_ >= 0, b_, -b_)
        q = aa / ab
        return z3.If((a_ >= 0) == (b_ >= 0), q, -q)

    def char_eq(self, a, b):
        ca, cb = chars(a), chars(b)
        n = max(len(ca), len(cb))
        ca = ca + [' '] * (n - len(ca))
        cb = cb + [' '] * (n - len(cb))
        conj = []
        for x, y in zip(ca, cb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            else:
                conj.append(self.ceq(x, y))
        if not conj:
            return True
        return z3.And(*conj) if len(conj) > 1 else conj[0]

    def ceq(self, x, y):
        if isinstance(x, str):
            x, y = y, x
        if isinstance(y, str):
            return x == z3.BitVecVal(ord(y), 8)
        return x == y

    def truth(self, v):
        """Concrete truth value; forks."""
        if isinstance(v, bool):
            return v
        if v is UNDEF:
            raise Fault("decision on an undefined value (%s)" % self.at())
        if isinstance(v, z3.BoolRef):
            return self.eng.branch(v)
        raise Fault("logical expected, found %r (%s)" % (v, self.at()))

    # ------------------------------------------------------------ assignment
    def fit(self, v, n):
        if n is None:
            return v
        c = chars(v)
        if len(c) > n:
            c = c[:n]
        elif len(c) < n:
            c = c + [' '] * (n - len(c))
        return mkchar(c)

    def store(self, cell, v):
        if isinstance(cell, SubStr):
            cell.set(v)
            return
        if cell.dead:
            raise Fault("store to deallocated object (%s)" % self.at())
        if isinstance(v, (Cell, Slot)):
            v = self.val_of(v)
        if isinstance(v, Arr):
            raise Fault("array assigned to scalar (%s)" % self.at())
        t = cell.t
        if v is UNDEF:
            cell.v = UNDEF
            return
        if t == 'r':
            if is_int(v):
                v = to_real(v)
            elif not is_real(v):
                raise Fault("non-numeric value assigned to real (%s)" % self.at())
        elif t == 'i':
            if is_real(v):
                v = self.trunc(v)
            elif not is_int(v):
                raise Fault("non-numeric value assigned to integer (%s)" % self.at())
        elif t == 'l':
            if not is_log(v):
                raise Fault("non-logical value assigned to logical (%s)" % self.at())
        elif t == 'c':
            if not is_char(v):
                raise Fault("non-character value assigned to character (%s)" % self.at())
            v = self.fit(v, cell.clen)
        elif t == 'd':
            if not isinstance(v, DTObj):
                raise Fault("bad value assigned to derived type (%s)" % self.at())
            v = self.copy_dt(v)
        cell.v = v

    def trunc(self, v):
        if not is_sym(v):
            return int(v)
        f = z3.ToInt(v)
        return z3.If(v >= 0, f, -z3.ToInt(-v))

    def copy_dt(self, o):
        f = {}
        for n, s in o.f.items():
            ns = Slot(s.name, s.decl, s.rank, s.alloc, s.ptr, s.scope)
            if s.ptr:
                ns.val = s.val
            elif s.val is None:
                ns.val = None
            else:
                ns.val = self.copy_ref(s.val)
            f[n] = ns
        return DTObj(o.type, f)

    def copy_ref(self, r):
        if isinstance(r, Cell):
            c = Cell(r.t, self.copy_dt(r.v) if isinstance(r.v, DTObj) else r.v, r.clen)
            return c
        return Arr([self.copy_ref(c) for c in r.cells], r.shape, r.lb, r.t)

    def assign_ref(self, r, v):
        if isinstance(r, Arr):
            if any(c.dead for c in r.cells):
                raise Fault("store to deallocated array (%s)" % self.at())
            if isinstance(v, Arr):
                if v.shape != r.shape:
                    raise Fault("shape mismatch in assignment: %s = %s (%s)" % (r.shape, v.shape, self.at()))
                if any(c.dead for c in v.cells):
                    raise Fault("use of deallocated array (%s)" % self.at())
                vals = [c.v for c in v.cells]
                for c, x in zip(r.cells, vals):
                    self.store(c, x)
            else:
                for c in r.cells:
                    self.store(c, v)
        else:
            self.store(r, v)

    def assign_slot(self, s, v):
        """Assignment to a whole variable (allocatable semantics)."""
        if isinstance(v, (Cell, Slot)):
            v = self.val_of(v)
        if s.const:
            raise Fault("assignment to constant %s" % s.name)
        if s.decl is not None and s.decl.intent == 'in' and not s.ptr:
            raise Fault("assignment to intent(in) argument %s (%s)" % (s.name, self.at()))
        if s.alloc and not s.ptr:
            ts = s.decl.ts
            if s.rank == 0:
                if s.val is None:
                    s.val = self.make_cell(ts, s.scope, dyn=v.type if isinstance(v, DTObj) else None)
                if ts.base == 'character' and ts.len == ':':
                    s.val.clen = None
                self.store(s.val, v)
                return
            if isinstance(v, Arr):
                if s.val is None or s.val.shape != v.shape:
                    if s.val is not None:
                        self.kill(s.val)
                    vals = [c.v for c in v.cells]
                    cl = None
                    if ts.base == 'character' and ts.len == ':' and vals:
                        cl = len(vals[0])
                    s.val = self.make_arr(ts, v.shape, [1] * len(v.shape), s.scope, clen=cl)
                    for c, x in zip(s.val.cells, vals):
                        self.store(c, x)
                    return
            elif s.val is None:
                raise Fault("scalar assigned to unallocated array %s (%s)" % (s.name, self.at()))
        self.assign_ref(self.need(s), v)

    def check_assignable(self, e, scope):
        """Fault on stores through intent(in) dummies (not through pointers)."""
        while e[0] in ('index', 'member'):
            if e[0] == 'member':
                sl = self.slot_of(e, scope, soft=True)
                if isinstance(sl, Slot) and sl.ptr:
                    return
            e = e[1]
        if e[0] == 'name':
            r = scope.lookup(e[1])
            if isinstance(r, Slot):
                if r.decl is not None and r.decl.intent == 'in' and not r.ptr:
                    raise Fault("store to intent(in) argument %s (%s)" % (r.name, self.at()))
                if r.const:
                    raise Fault("store to constant %s (%s)" % (r.name, self.at()))

    def do_assign(self, lhs, rhs, scope):
        v = self.ev(rhs, scope)
        self.check_assignable(lhs, scope)
        s = self.slot_of(lhs, scope, soft=True)
        if isinstance(s, Slot):
            # defined assignment
            r = s.val
            if isinstance(r, Cell) and isinstance(r.v, DTObj) and self.defined_assign(r, v):
                return
            if isinstance(r, Arr) and r.t == 'd' and r.cells and self.has_defined(r.cells[0].v.type) and isinstance(v, Arr):
                for c, x in zip(r.cells, v.cells):
                    self.defined_assign(c, x.v)
                return
            self.assign_slot(s, v)
            return
        r = self.ref(lhs, scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if isinstance(r, Cell) and isinstance(r.v, DTObj) and self.defined_assign(r, v):
            return
        if not isinstance(r, (Cell, Arr, SubStr)):
            raise Fault("cannot assign to expression (%s)" % self.at())
        self.assign_ref(r, v)

    def has_defined(self, td):
        return self.binding(td, 'assignment(=)') is not None

    def defined_assign(self, cell, v):
        bd = self.binding(cell.v.type, 'assignment(=)')
        if bd is None or not isinstance(v, DTObj):
            return False
        for cand in bd[1]:
            b2 = self.binding(cell.v.type, cand)
            if b2 and b2[0] != 'generic':
                args = [('py', cell), ('py', Cell('d', v))]
                if self.matches(b2[0], args, {}, self.type_scope(cell.v.type)):
                    self.invoke(b2[0], args, {}, None)
                    return True
        return False

    def target_of(self, e, scope):
        """Pointer target for '=>'."""
        if e[0] == 'index' and e[1] == ('name', 'null') and not e[2]:
            return None
        if e[0] in ('name', 'member'):
            s = self.slot_of(e, scope, soft=True)
            if isinstance(s, Slot):
                if s.decl is not None and s.decl.ts.base == 'procedure':
                    return s.val
                if s.ptr:
                    return s.val
                return self.need(s)
            if e[0] == 'name':
                r = scope.lookup(e[1])
                if isinstance(r, (Proc, tuple)):
                    return r
        r = self.ref(e, scope)
        if isinstance(r, Slot):
            return r.val
        if isinstance(r, (Cell, Arr)):
            return r
        raise Fault("invalid pointer target (%s)" % self.at())

    # ------------------------------------------------------------ statements
    def block(self, body, scope):
        for st in body:
            sig = self.stmt(st, scope)
            if sig is not None:
                return sig
        return None

    def stmt(self, st, scope):
        k = st[0]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Fault("more than %d statements executed (does not terminate?)" % self.max_steps)
        self.where = (scope.proc.name if isinstance(scope, Frame) else '?', st[1])
        if k == 'assign':
            self.do_assign(st[2], st[3], scope)
            return None
        if k == 'if':
            for c, blk in st[2]:
                if self.truth(self.ev(c, scope)):
                    return self.block(blk, scope)
            if st[3] is not None:
                return self.block(st[3], scope)
            return None
        if k == 'call':
            self.do_call(st[2], st[3], scope)
            return None
        if k == 'passign':
            t = self.target_of(st[3], scope)
            self.do_passign(st[2], t, scope)
            return None
        if k == 'do':
            return self.do_loop(st, scope)
        if k == 'return':
            return ('return', None)
        if k in ('exit', 'cycle'):
            return (k, st[2])
        if k == 'allocate':
            self.do_allocate(st, scope)
            return None
        if k == 'deallocate':
            self.do_deallocate(st, scope)
            return None
        if k == 'nullify':
            for a in st[2]:
                s = self.slot_of(a, scope)
                if not isinstance(s, Slot) or not s.ptr:
                    raise Fault("nullify of non-pointer (%s)" % self.at())
                s.val = None
            return None
        if k == 'select':
            return self.do_select(st, scope)
        if k == 'selecttype':
            return self.do_selecttype(st, scope)
        if k == 'associate':
            fr = Frame(self, scope.proc, scope)
            fr.proc = _PseudoProc(scope.proc)
            for n, e in st[2]:
                r = self.ref(e, scope)
                if isinstance(r, Slot):
                    r = self.need(r)
                s = Slot(n, None, len(r.shape) if isinstance(r, Arr) else 0, False, False, fr)
                if not isinstance(r, (Cell, Arr)):
                    r = Cell(self.tag(r), r, len(r) if is_char(r) else None)
                s.val = r
                fr.vars[n] = s
            return self.block(st[3], fr)
        if k == 'write':
            self.do_write(st, scope)
            return None
        if k == 'nop':
            return None
        if k == 'stop':
            raise Stop("stop (%s)" % self.at())
        if k == 'where':
            self.do_where(st, scope)
            return None
        raise Unsupported("statement %s (%s)" % (k, self.at()))

    def do_where(self, st, scope):
        done = None
        for cond, blk in st[2]:
            if cond is not None:
                m = self.ev(cond, scope)
                mask = [self.truth(c.v) for c in m.cells]
            else:
                mask = [True] * len(done)
            if done is None:
                done = [False] * len(mask)
            act = [a and not d for a, d in zip(mask, done)]
            for s in blk:
                if s[0] != 'assign':
                    raise Unsupported("statement in where")
                r = self.ref(s[2], scope)
                v = self.ev(s[3], scope)
                vals = [c.v for c in v.cells] if isinstance(v, Arr) else [v] * len(r.cells)
                if len(vals) != len(act) or len(r.cells) != len(act):
                    raise Fault("shape mismatch in where (%s)" % self.at())
                for c, x, a in zip(r.cells, vals, act):
                    if a:
                        self.store(c, x)
            done = [a or d for a, d in zip(mask, done)]

    def do_passign(self, lhs, t, scope):
        if lhs[0] == 'index' and all(a[0] == 'slice' for a in lhs[2]):
            s = self.slot_of(lhs[1], scope)
            if not s.ptr:
                raise Fault("pointer assignment to non-pointer (%s)" % self.at())
            if all(a[1] is not None and a[2] is None for a in lhs[2]):
                lbs = [self.cint(self.ev(a[1], scope)) for a in lhs[2]]
                s.val = Arr(t.cells, t.shape, lbs, t.t)
                return
            lbs, shp = self.bounds(lhs[2], scope)
            n = 1
            for x in shp:
                n *= x
            s.val = Arr(t.cells[:n], shp, lbs, t.t)
            return
        s = self.slot_of(lhs, scope)
        if not isinstance(s, Slot) or not s.ptr:
            raise Fault("pointer assignment to non-pointer (%s)" % self.at())
        if t is not None and isinstance(t, (Cell, Arr)):
            r = len(t.shape) if isinstance(t, Arr) else 0
            if r != s.rank:
                raise Fault("rank mismatch in pointer assignment (%s)" % self.at())
        s.val = t

    def do_call(self, target, args, scope):
        if target[0] == 'name':
            pr = scope.lookup(target[1])
            if pr is None:
                fn = getattr(self, 'isub_' + target[1], None)
                if fn is not None:
                    fn(args, scope)
                    return
                raise Fault("call of unknown procedure %s (%s)" % (target[1], self.at()))
            pos, kw = self.split_args(args)
            self.invoke(pr, pos, kw, scope)
            return
        if target[0] == 'member':
            b = self.base_obj(target[1], scope)
            if isinstance(b, DTObj) and target[2] in b.f:
                pos, kw = self.split_args(args)
                self.invoke(b.f[target[2]], pos, kw, scope)
                return
            self.call_bound(target[1], target[2], args, scope)
            return
        raise Unsupported("call %r" % (target,))

    def isub_move_alloc(self, args, scope):
        pos, kw = self.split_args(args)
        fr_ = self.slot_of(pos[0] if pos else kw['from'], scope)
        to = self.slot_of(pos[1] if len(pos) > 1 else kw['to'], scope)
        if to.val is not None:
            self.kill(to.val)
        to.val = fr_.val
        fr_.val = None

    def do_loop(self, st, scope):
        _, no, hdr, body, label = st
        n = 0

        def run():
            sig = self.block(body, scope)
            if sig is None:
                return None
            if sig[0] == 'return':
                return sig
            if sig[1] is not None and sig[1] != label:
                return sig
            if sig[0] == 'exit':
                return 'break'
            return None      # cycle
        if hdr[0] == 'count':
            cell = self.ref(hdr[1] if isinstance(hdr[1], tuple) else ('name', hdr[1]), scope)
            lo = self.ev(hdr[2], scope)
            hi = self.ev(hdr[3], scope)
            stp = self.cint(self.ev(hdr[4], scope)) if hdr[4] is not None else 1
            if lo is UNDEF or hi is UNDEF:
                raise Fault("undefined loop bound (%s)" % self.at())
            if stp == 0:
                raise Fault("zero loop step")
            i = lo
            while True:
                self.where = (scope.proc.name, no)
                self.store(cell, i)
                c = (i <= hi) if stp > 0 else (i >= hi)
                if not self.truth(c):
                    return None
                n += 1
                if n > self.max_iter:
                    raise Inconclusive("loop bound %d exceeded (%s)" % (self.max_iter, self.at()))
                sig = run()
                if sig == 'break':
                    return None
                if sig is not None:
                    return sig
                i = i + stp
        while True:
            if hdr[0] == 'while':
                if not self.truth(self.ev(hdr[1], scope)):
                    return None
            n += 1
            if n > 2000:
                raise Fault("loop does not terminate within 2000 iterations (%s)" % self.at())
            sig = run()
            if sig == 'break':
                return None
            if sig is not None:
                return sig

    def do_allocate(self, st, scope):
        opts = {}
        objs = []
        for a in st[2]:
            if a[0] == 'kw':
                opts[a[1]] = a[2]
            else:
                objs.append(a)
        src = None
        if 'source' in opts:
            src = self.ev(opts['source'], scope)
        mold = None
        if 'mold' in opts:
            mold = self.ev(opts['mold'], scope)
        for o in objs:
            dims = None
            e = o
            if o[0] == 'index':
                e, dims = o[1], o[2]
            s = self.slot_of(e, scope)
            if not isinstance(s, Slot) or not (s.alloc or s.ptr):
                raise Fault("allocate of non-allocatable (%s)" % self.at())
            if s.val is ABSENT:
                raise Fault("allocate of absent argument (%s)" % self.at())
            if s.alloc and s.val is not None:
                if 'stat' in opts:
                    self.assign_ref(self.ref(opts['stat'], scope), 5014)
                    if 'errmsg' in opts:
                        self.assign_ref(self.ref(opts['errmsg'], scope), 'Attempt to allocate an allocated object')
                    continue
                raise Fault("allocate of already allocated %s (%s)" % (s.name, self.at()))
            ts = s.decl.ts
            dyn = None
            sc = s.scope
            if st[3] is not None:
                if st[3].base == 'character':
                    ln = self.cint(self.ev(st[3].len, scope)) if st[3].len not in (':', '*', None) else None
                    ts = TypeSpec('character', None, ('int', ln, None))
                elif st[3].base == 'type':
                    dyn = self.find_type(st[3].dt, scope)
            ref = src if src is not None else mold
            if isinstance(ref, DTObj):
                dyn = ref.type
            elif isinstance(ref, Arr) and ref.t == 'd' and ref.cells:
                dyn = ref.cells[0].v.type
            if s.rank == 0:
                s.val = self.make_cell(ts, sc, dyn=dyn)
                if ts.base == 'character' and ts.len == ':' and is_char(src):
                    s.val.clen = len(src)
                if src is not None:
                    self.store(s.val, src)
            else:
                if dims is None:
                    if isinstance(ref, Arr):
                        lbs, shp = list(ref.lb), list(ref.shape)
                    else:
                        raise Fault("allocate of array %s without shape (%s)" % (s.name, self.at()))
                else:
                    if len(dims) != s.rank:
                        raise Fault("allocate of %s with wrong rank (%s)" % (s.name, self.at()))
                    lbs, shp = self.bounds(dims, scope)
                s.val = self.make_arr(ts, shp, lbs, sc, dyn=dyn)
                if src is not None:
                    self.assign_ref(s.val, src)
        if 'stat' in opts:
            c = self.ref(opts['stat'], scope)
            if not (isinstance(c, Cell) and is_int(c.v) and not is_sym(c.v) and c.v == 5014 and False):
                already = isinstance(c, Cell) and not is_sym(c.v) and c.v == 5014 and self._alloc_failed(objs, scope, opts)
                if not already:
                    self.assign_ref(c, 0)

    def _alloc_failed(self, objs, scope, opts):
        return getattr(self, '_af', False)

    def do_deallocate(self, st, scope):
        opts = {}
        objs = []
        for a in st[2]:
            if a[0] == 'kw':
                opts[a[1]] = a[2]
            else:
                objs.append(a)
        for o in objs:
            s = self.slot_of(o, scope)
            if not isinstance(s, Slot) or not (s.alloc or s.ptr):
                raise Fault("deallocate of non-allocatable (%s)" % self.at())
            if s.val is None:
                if 'stat' in opts:
                    self.assign_ref(self.ref(opts['stat'], scope), 5014)
                    return
                raise Fault("deallocate of %s which is not allocated (%s)" % (s.name, self.at()))
            ref = s.val
            cells = [ref] if isinstance(ref, Cell) else ref.cells
            for c in cells:
                if c.dead:
                    raise Fault("double deallocation of %s (%s)" % (s.name, self.at()))
            self.finalize(ref)
            self.kill(ref)
            s.val = None
        if 'stat' in opts:
            self.assign_ref(self.ref(opts['stat'], scope), 0)

    def finalize(self, ref):
        """Run final procedures of the object(s) and their allocatable/plain components."""
        cells = [ref] if isinstance(ref, Cell) else ref.cells
        for c in cells:
            if isinstance(c.v, DTObj):
                td = c.v.type
                t = td
                while t is not None:
                    for fn in t.finals:
                        pr = self.type_scope(t).lookup(fn)
                        d = pr.decls[pr.args[0]]
                        drank = 0 if d.dims is None else len(d.dims)
                        if drank == 0 and (isinstance(ref, Cell) or 'elemental' in pr.prefix):
                            self.invoke(pr, [('py', c)], {}, None)
                    t = self.parent_type(t)
                for s in c.v.f.values():
                    if not s.ptr and isinstance(s.val, (Cell, Arr)):
                        self.finalize(s.val)

    def do_select(self, st, scope):
        v = self.ev(st[2], scope)
        default = None
        for sel, blk in st[3]:
            if sel is None:
                default = blk
                continue
            for a in sel:
                if a[0] == 'slice':
                    c = True
                    if a[1] is not None:
                        c = self.truth(self.bin2('>=', v, self.ev(a[1], scope)))
                    if c and a[2] is not None:
                        c = self.truth(self.bin2('<=', v, self.ev(a[2], scope)))
                elif is_log(v):
                    c = self.truth(self.bin2('.eqv.', v, self.ev(a, scope)))
                else:
                    c = self.truth(self.bin2('==', v, self.ev(a, scope)))
                if c:
                    return self.block(blk, scope)
        if default is not None:
            return self.block(default, scope)
        return None

    def do_selecttype(self, st, scope):
        _, no, nm, e, cases = st
        r = self.ref(e, scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if nm is None:
            if e[0] != 'name':
                raise Unsupported("select type without name")
            nm = e[1]
        o = r.v
        chosen = None
        for sel, blk in cases:
            if sel is None:
                if chosen is None:
                    chosen = (0, blk)
                continue
            td = self.find_type(sel[1], scope)
            if sel[0] == 'type':
                if o.type.name == td.name:
                    chosen = (3, blk)
                    break
            elif self.is_a(o.type, td) and (chosen is None or chosen[0] < 2):
                chosen = (2, blk)
        if chosen is None:
            return None
        fr = Frame(self, scope.proc, scope)
        fr.proc = _PseudoProc(scope.proc)
        s = Slot(nm, None, 0, False, False, fr)
        s.val = r
        fr.vars[nm] = s
        return self.block(chosen[1], fr)

    # ------------------------------------------------------------ output
    def do_write(self, st, scope):
        ctl, items = st[2], st[3]
        unit = ctl[0] if ctl and ctl[0][0] != 'kw' else None
        fmt = None
        for a in ctl:
            if a[0] == 'kw':
                if a[1] == 'unit':
                    unit = a[2]
                elif a[1] == 'fmt':
                    fmt = a[2]
        if fmt is None and len(ctl) > 1 and ctl[1][0] != 'kw':
            fmt = ctl[1]
        tgt = None
        if unit is not None and unit[0] != 'star' and unit[0] != 'int':
            r = self.ref(unit, scope)
            if isinstance(r, (Cell, SubStr)) and (isinstance(r, SubStr) or r.t == 'c'):
                tgt = r
            elif isinstance(r, Arr) and r.t == 'c':
                raise Unsupported("internal write to character array")
        vals = []
        for it in items:
            v = self.ev(it, scope)
            if isinstance(v, Arr):
                vals.extend(c.v for c in v.cells)
            else:
                vals.append(v)
        if fmt is None or fmt[0] == 'star':
            out = [' ']
            first = True
            prevc = False
            for v in vals:
                isc = is_char(v)
                if not first and not (isc and prevc):
                    out.append(' ')
                out.extend(self.fmtval(v, None))
                first = False
                prevc = isc
        else:
            f = self.ev(fmt, scope)
            if not isinstance(f, str):
                raise Unsupported("symbolic format")
            out = self.format(f, vals)
        res = mkchar(out)
        if tgt is not None:
            if unit[0] == 'name':
                self.check_assignable(unit, scope)
            if isinstance(tgt, Cell) and tgt.clen is not None and len(out) > tgt.clen:
                pass   # gfortran: end of record error; treated as truncation when blank, else fault
            if isinstance(tgt, Cell) and tgt.clen is not None and len(out) > tgt.clen:
                raise Fault("internal write overflows record of length %d (%s)" % (tgt.clen, self.at()))
            self.store(tgt, res)
        else:
            self.output.append(res)

    def fmtval(self, v, d):
        if v is UNDEF:
            return list('?undef?')
        if is_char(v):
            c = chars(v)
            if d and d[0] == 'a' and d[1:]:
                w = int(d[1:])
                c = [' '] * (w - len(c)) + c if len(c) < w else c[:w]
            return c
        if isinstance(v, bool):
            return list('T' if v else 'F')
        if is_sym(v):
            return list('#')
        if isinstance(v, int):
            s = str(v)
            if d and d[0] == 'i' and d[1:] and int(d[1:].split('.')[0]) > 0:
                w = int(d[1:].split('.')[0])
                s = s.rjust(w) if len(s) <= w else '*' * w
            elif d is None:
                s = s.rjust(11)
            return list(s)
        if isinstance(v, Fraction):
            return list('%g' % float(v))
        return list('?')

    def format(self, f, vals):
        f = f.strip().lower() if not re.search(r"['\"]", f) else f.strip()
        if f.startswith('(') and f.endswith(')'):
            f = f[1:-1]
        descs = self.fmt_expand(f)
        out = []
        i = 0
        ndata = sum(1 for d in descs if d[0] == 'd')
        if vals and not ndata:
            raise Fault("format without data descriptors")
        while True:
            for k, d in descs:
                if k == 'lit':
                    if i >= len(vals) and vals and False:
                        break
                    out.extend(d)
                else:
                    if i >= len(vals):
                        return out
                    out.extend(self.fmtval(vals[i], d))
                    i += 1
            if i >= len(vals):
                return out

    def fmt_expand(self, f):
        """Flat list of ('d', desc) / ('lit', text)."""
        res = []
        i = 0
        n = len(f)
        while i < n:
            c = f[i]
            if c in ' ,':
                i += 1
                continue
            if c in '\'"':
                j = i + 1
                s = ''
                while True:
                    if f[j] == c:
                        if j + 1 < n and f[j + 1] == c:
                            s += c
                            j += 2
                            continue
                        break
                    s += f[j]
                    j += 1
                res.append(('lit', list(s)))
                i = j + 1
                continue
            m = re.compile(r'(\d*|\*)\(').match(f, i)
            if m:
                depth = 1
                j = m.end()
                while depth:
                    if f[j] in '\'"':
                        q = f[j]
                        j += 1
                        while f[j] != q:
                            j += 1
                    elif f[j] == '(':
                        depth += 1
                    elif f[j] == ')':
                        depth -= 1
                    j += 1
                inner = self.fmt_expand(f[m.end():j - 1])
                rep = m.group(1)
                res.extend(inner * (50 if rep == '*' else int(rep or 1)))
                i = j
                continue
            m = re.compile(r'(\d+)x', re.I).match(f, i)
            if m:
                res.append(('lit', [' '] * int(m.group(1))))
                i = m.end()
                continue
            m = re.compile(r'(\d*)([a-z]+)(\d*(?:\.\d+)?)', re.I).match(f, i)
            if m:
                res.extend([('d', (m.group(2) + m.group(3)).lower())] * int(m.group(1) or 1))
                i = m.end()
                continue
            if c == '/':
                res.append(('lit', ['\n']))
                i += 1
                continue
            raise Unsupported("format %r" % f)
        return res

    # ------------------------------------------------------------ intrinsics
    def _a(self, args, scope, *names):
        """Evaluate intrinsic arguments by position/keyword."""
        pos, kw = self.split_args(args)
        out = []
        for i, n in enumerate(names):
            if i < len(pos):
                out.append(pos[i])
            else:
                out.append(kw.get(n))
        return out

    def _v(self, e, scope):
        return None if e is None else self.ev(e, scope)

    def elem(self, args, scope, f):
        vs = [self.ev(a, scope) for a in args]
        if any(isinstance(v, Arr) for v in vs):
            shp = [v.shape for v in vs if isinstance(v, Arr)][0]
            n = 1
            for x in shp:
                n *= x
            out = []
            for i in range(n):
                v = f(*[x.cells[i].v if isinstance(x, Arr) else x for x in vs])
                out.append(Cell(self.tag(v), v))
            return Arr(out, shp, t=out[0].t if out else None)
        return f(*vs)

    def in_size(self, args, scope):
        a, dim, _ = self._a(args, scope, 'array', 'dim', 'kind')
        r = self.ref(a, scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if not isinstance(r, Arr):
            raise Fault("size of a scalar (%s)" % self.at())
        if any(c.dead for c in r.cells):
            raise Fault("size of deallocated array (%s)" % self.at())
        if dim is None:
            return len(r.cells)
        d = self.cint(self.ev(dim, scope))
        if d < 1 or d > len(r.shape):
            raise Fault("size: dim out of range (%s)" % self.at())
        return r.shape[d - 1]

    def _bound(self, args, scope, upper):
        a, dim, _ = self._a(args, scope, 'array', 'dim', 'kind')
        r = self.ref(a, scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if not isinstance(r, Arr):
            raise Fault("bound of a scalar (%s)" % self.at())
        lbs = [(1 if n == 0 else l) for l, n in zip(r.lb, r.shape)]
        bs = [l + n - 1 if n > 0 else 0 for l, n in zip(r.lb, r.shape)] if upper else lbs
        if dim is None:
            return Arr([Cell('i', x) for x in bs], (len(bs),), t='i')
        d = self.cint(self.ev(dim, scope))
        if d < 1 or d > len(r.shape):
            raise Fault("lbound/ubound: dim out of range (%s)" % self.at())
        return bs[d - 1]

    def in_lbound(self, args, scope):
        return self._bound(args, scope, False)

    def in_ubound(self, args, scope):
        return self._bound(args, scope, True)

    def in_shape(self, args, scope):
        r = self.ref(args[0], scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if not isinstance(r, Arr):
            return Arr([], (0,), t='i')
        return Arr([Cell('i', x) for x in r.shape], (len(r.shape),), t='i')

    def in_len(self, args, scope):
        r = self.ref(args[0], scope)
        if isinstance(r, Slot):
            r = self.need(r)
        if isinstance(r, Arr):
            return r.cells[0].clen if r.cells and r.cells[0].clen is not None else (len(r.cells[0].v) if r.cells else 0)
        if isinstance(r, Cell):
            if r.clen is not None:
                return r.clen
            if is_char(r.v):
                return len(r.v)
            raise Fault("len of undefined (%s)" % self.at())
        return len(self.val_of(r))

    def _lentrim(self, v):
        if v is UNDEF:
            raise Fault("use of undefined character value (%s)" % self.at())
        c = chars(v)
        n = len(c)
        while n > 0:
            x = c[n - 1]
            if isinstance(x, str):
                if x != ' ':
                    break
            elif not self.eng.branch(x == z3.BitVecVal(32, 8)):
                break
            n -= 1
        return n

    def in_len_trim(self, args, scope):
        return self.elem([args[0]], scope, self._lentrim)

    def in_trim(self, args, scope):
        v = self.ev(args[0], scope)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, str):
            return v.rstrip(' ')
        return mkchar(v.c[:self._lentrim(v)])

    def in_adjustl(self, args, scope):
        v = self.ev(args[0], scope)
        if v is UNDEF:
            return UNDEF
        c = chars(v)
        i = 0
        while i < len(c):
            x = c[i]
            if isinstance(x, str):
                if x != ' ':
                    break
            elif not self.eng.branch(x == z3.BitVecVal(32, 8)):
                break
            i += 1
        return mkchar(c[i:] + [' '] * i)

    def in_repeat(self, args, scope):
        return mkchar(chars(self.ev(args[0], scope)) * self.cint(self.ev(args[1], scope)))

    def in_allocated(self, args, scope):
        s = self.slot_of(args[0], scope)
        if not isinstance(s, Slot) or not s.alloc:
            raise Fault("allocated() of non-allocatable (%s)" % self.at())
        if s.val is ABSENT:
            raise Fault("allocated() of absent argument (%s)" % self.at())
        return s.val is not None

    def in_associated(self, args, scope):
        s = self.slot_of(args[0], scope, soft=True)
        if s is None:
            r = self.ref(args[0], scope, soft=True)
            if isinstance(r, Slot):
                s = r
        if not isinstance(s, Slot) or not s.ptr:
            raise Fault("associated() of non-pointer (%s)" % self.at())
        if s.val is ABSENT:
            raise Fault("associated() of absent argument (%s)" % self.at())
        if len(args) == 1:
            return s.val is not None
        t = self.target_of(args[1], scope)
        if s.val is None or t is None:
            return False
        if isinstance(t, Cell):
            return s.val is t or (isinstance(s.val, Cell) and isinstance(s.val.v, DTObj) and s.val.v is t.v)
        if isinstance(t, Arr) and isinstance(s.val, Arr):
            return s.val.shape == t.shape and len(t.cells) > 0 and all(a is b for a, b in zip(s.val.cells, t.cells))
        return False

    def in_present(self, args, scope):
        s = self.slot_of(args[0], scope)
        if s.decl is None or 'optional' not in s.decl.attrs:
            # shared allocatable slot: the dummy is present
            return True
        return s.val is not ABSENT

    def in_ichar(self, args, scope):
        def f(v):
            if v is UNDEF:
                return UNDEF
            x = chars(v)[0]
            if isinstance(x, str):
                return ord(x)
            if self.bv:
                return z3.ZeroExt(self.bv - 8, x)
            return z3.BV2Int(x)
        return self.elem([args[0]], scope, f)

    in_iachar = in_ichar

    def in_achar(self, args, scope):
        def f(v):
            if isinstance(v, z3.BitVecRef):
                return SymC([z3.Extract(7, 0, v)])
            if is_sym(v):
                return SymC([z3.Int2BV(v, 8)])
            return chr(v)
        return self.elem([args[0]], scope, f)

    in_char = in_achar

    def in_index(self, args, scope):
        a, b, back, _ = self._a(args, scope, 'string', 'substring', 'back', 'kind')
        s, t = self.ev(a, scope), self.ev(b, scope)
        bk = self.truth(self.ev(back, scope)) if back is not None else False
        cs, ct = chars(s), chars(t)
        rng = range(0, len(cs) - len(ct) + 1)
        for i in (reversed(rng) if bk else rng):
            e = self.char_eq(mkchar(cs[i:i + len(ct)]), t)
            if (e if isinstance(e, bool) else self.eng.branch(e)):
                return i + 1
        return 0

    def in_scan(self, args, scope):
        s, t = self.ev(args[0], scope), self.ev(args[1], scope)
        for i, c in enumerate(chars(s)):
            for d in chars(t):
                e = self.char_eq(mkchar([c]), mkchar([d]))
                if (e if isinstance(e, bool) else self.eng.branch(e)):
                    return i + 1
        return 0

    def in_verify(self, args, scope):
        s, t = self.ev(args[0], scope), self.ev(args[1], scope)
        for i, c in enumerate(chars(s)):
            if not any((e if isinstance(e, bool) else self.eng.branch(e))
                       for e in (self.char_eq(mkchar([c]), mkchar([d])) for d in chars(t))):
                return i + 1
        return 0

    def _bits(self, args, scope, f, zf):
        def g(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return f(a, b)
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
                return zf(a, b)
            raise Unsupported("bit operation on mathematical integers")
        return self.elem(args, scope, g)

    def in_iand(self, args, scope):
        return self._bits(args, scope, lambda a, b: a & b, lambda a, b: a & b)

    def in_ior(self, args, scope):
        return self._bits(args, scope, lambda a, b: a | b, lambda a, b: a | b)

    def in_ieor(self, args, scope):
        return self._bits(args, scope, lambda a, b: a ^ b, lambda a, b: a ^ b)

    def in_ishft(self, args, scope):
        def f(a, b):
            if not isinstance(a, int) or not isinstance(b, int):
                if isinstance(a, z3.BitVecRef) and isinstance(b, int):
                    return a << b if b >= 0 else z3.LShR(a, -b)
                raise Unsupported("symbolic shift")
            r = (a & 0xffffffff) << b if b >= 0 else (a & 0xffffffff) >> -b
            r &= 0xffffffff
            return r - (1 << 32) if r >= (1 << 31) else r
        return self.elem(args, scope, f)

    def in_bit_size(self, args, scope):
        return 32

    def _minmax(self, args, scope, mx):
        def f(*vs):
            if any(v is UNDEF for v in vs):
                return UNDEF
            r = vs[0]
            for v in vs[1:]:
                if is_sym(r) or is_sym(v):
                    x, y = r, v
                    if is_real(x) or is_real(y):
                        x, y = _frac(to_real(x)), _frac(to_real(y))
                    r = z3.If(x >= y, x, y) if mx else z3.If(x <= y, x, y)
                else:
                    r = max(r, v) if mx else min(r, v)
            return r
        return self.elem(args, scope, f)

    def in_max(self, args, scope):
        return self._minmax(args, scope, True)

    def in_min(self, args, scope):
        return self._minmax(args, scope, False)

    def in_huge(self, args, scope):
        v = self.val_of(self.ref(args[0], scope, soft=True)) if args[0][0] not in ('int', 'real') else args[0][1]
        t = 'r' if args[0][0] == 'real' else ('i' if args[0][0] == 'int' else None)
        if t is None:
            r = self.ref(args[0], scope)
            if isinstance(r, Slot):
                r = self.need(r)
            t = r.t if isinstance(r, (Cell, Arr)) else self.tag(r)
        return 2147483647 if t == 'i' else Fraction(10) ** 308

    def in_tiny(self, args, scope):
        return Fraction(1, 10 ** 307)

    def in_epsilon(self, args, scope):
        return Fraction(1, 2 ** 52)

    def _mask(self, v):
        return [c.v for c in v.cells] if isinstance(v, Arr) else [v]

    def in_any(self, args, scope):
        vs = self._mask(self.ev(args[0], scope))
        if any(v is True for v in vs):
            return True
        sy = [v for v in vs if is_sym(v)]
        if any(v is UNDEF for v in vs):
            return UNDEF
        return z3.Or(*sy) if sy else False

    def in_all(self, args, scope):
        vs = self._mask(self.ev(args[0], scope))
        if any(v is False for v in vs):
            return False
        if any(v is UNDEF for v in vs):
            return UNDEF
        sy = [v for v in vs if is_sym(v)]
        return z3.And(*sy) if sy else True

    def in_count(self, args, scope):
        vs = self._mask(self.ev(args[0], scope))
        n = sum(1 for v in vs if v is True)
        for v in vs:
            if is_sym(v):
                n = n + z3.If(v, 1, 0)
        return n

    def in_sum(self, args, scope):
        a = self.ev(args[0], scope)
        if len(args) > 1:
            raise Unsupported("sum with dim/mask")
        r = Fraction(0) if a.t == 'r' else 0
        for c in a.cells:
            r = self.bin2('+', r, c.v)
        return r

    def in_product(self, args, scope):
        a = self.ev(args[0], scope)
        r = Fraction(1) if a.t == 'r' else 1
        for c in a.cells:
            r = self.bin2('*', r, c.v)
        return r

    def in_maxval(self, args, scope):
        a = self.ev(args[0], scope)
        return self._minmax([('py', c) for c in a.cells], scope, True)

    def in_minval(self, args, scope):
        a = self.ev(args[0], scope)
        return self._minmax([('py', c) for c in a.cells], scope, False)

    def in_merge(self, args, scope):
        def f(a, b, m):
            if self.truth(m):
                return a
            return b
        return self.elem(args, scope, f)

    def in_mod(self, args, scope):
        def f(a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if is_real(a):
                raise Unsupported("mod of reals")
            return a - b * self.idiv(a, b)
        return self.elem(args, scope, f)

    def in_modulo(self, args, scope):
        return self.elem(args, scope, lambda a, b: a % b)

    def in_abs(self, args, scope):
        def f(a):
            if a is UNDEF:
                return a
            return z3.If(a >= 0, a, -a) if is_sym(a) else abs(a)
        return self.elem(args, scope, f)

    def in_int(self, args, scope):
        def f(a):
            if a is UNDEF or is_int(a):
                return a
            return self.trunc(a)
        return self.elem([args[0]], scope, f)

    def in_nint(self, args, scope):
        def f(a):
            if a is UNDEF:
                return a
            if is_sym(a):
                return z3.If(a >= 0, z3.ToInt(a + Fraction(1, 2)), -z3.ToInt(-a + Fraction(1, 2)))
            return int(math.floor(a + Fraction(1, 2))) if a >= 0 else -int(math.floor(-a + Fraction(1, 2)))
        return self.elem([args[0]], scope, f)

    def in_floor(self, args, scope):
        return self.elem([args[0]], scope, lambda a: z3.ToInt(a) if is_sym(a) else math.floor(a))

    def in_ceiling(self, args, scope):
        return self.elem([args[0]], scope, lambda a: -z3.ToInt(-a) if is_sym(a) else math.ceil(a))

    def in_real(self, args, scope):
        def f(a):
            if a is UNDEF:
                return a
            return to_real(a)
        return self.elem([args[0]], scope, f)

    in_dble = in_real

    def _math(self, name, args, scope):
        def f(a):
            if a is UNDEF:
                return a
            if is_sym(a):
                return ufun(name)(a)
            return Fraction(getattr(math, name)(float(a)))
        return self.elem([args[0]], scope, f)

    def in_log(self, args, scope):
        def f(a):
            if a is UNDEF:
                return a
            if is_sym(a):
                return ufun('log')(a)
            if a <= 0:
                raise Fault("log of a non-positive number (%s)" % self.at())
            return Fraction(math.log(float(a)))
        return self.elem([args[0]], scope, f)

    def in_exp(self, args, scope):
        return self._math('exp', args, scope)

    def in_sqrt(self, args, scope):
        return self._math('sqrt', args, scope)

    def in_kind(self, args, scope):
        return 8 if args[0][0] == 'real' and args[0][2] == 'd' else 4

    def in_selected_real_kind(self, args, scope):
        p = self.cint(self.ev(args[0] if args[0][0] != 'kw' else args[0][2], scope))
        return 4 if p <= 6 else (8 if p <= 15 else 16)

    def in_selected_int_kind(self, args, scope):
        r = self.cint(self.ev(args[0] if args[0][0] != 'kw' else args[0][2], scope))
        return 1 if r <= 2 else (2 if r <= 4 else (4 if r <= 9 else 8))

    def in_null(self, args, scope):
        s = Slot('null', None, 0, False, True, scope)
        return s

    def in_same_type_as(self, args, scope):
        a, b = self.base_obj(args[0], scope), self.base_obj(args[1], scope)
        return a.type.name == b.type.name

    def in_extends_type_of(self, args, scope):
        a, b = self.base_obj(args[0], scope), self.base_obj(args[1], scope)
        return self.is_a(a.type, b.type)

    def in_omp_get_thread_num(self, args, scope):
        return 0

    def in_reshape(self, args, scope):
        a, sh = self.ev(args[0], scope), self.ev(args[1], scope)
        shp = [self.cint(c.v) for c in sh.cells]
        n = 1
        for x in shp:
            n *= x
        return Arr([Cell(c.t, c.v) for c in a.cells[:n]], shp, t=a.t)

    def in_spread(self, args, scope):
        raise Unsupported("spread")


def _combine(offs, idx, stride):
    return [o + i * stride for i in idx for o in offs]


class _PseudoProc:
    """Procedure-like owner of the pseudo frames of associate / select type blocks."""
    def __init__(self, p):
        self.name = p.name
        self.kind = p.kind
        self.result = p.result
        self.interfaces = {}
        self.types = {}
        self.procs = {}
        self.uses = []
        self.decls = {}


class SubStr:
    """Assignable substring of a character scalar."""
    def __init__(self, world, cell, args, scope):
        self.w = world
        self.cell = cell
        a = args[0]
        if len(args) != 1 or a[0] != 'slice':
            raise Fault("bad substring (%s)" % world.at())
        n = cell.clen if cell.clen is not None else len(cell.v)
        self.lo = world.cint(world.ev(a[1], scope)) if a[1] is not None else 1
        self.hi = world.cint(world.ev(a[2], scope)) if a[2] is not None else n
        if self.hi >= self.lo and (self.lo < 1 or self.hi > n):
            raise Fault("substring (%d:%d) outside 1:%d (%s)" % (self.lo, self.hi, n, world.at()))

    def get(self):
        if self.cell.v is UNDEF:
            return UNDEF
        if self.hi < self.lo:
            return ''
        return mkchar(chars(self.cell.v)[self.lo - 1:self.hi])

    def set(self, v):
        if isinstance(v, (Cell, Slot)):
            v = self.w.val_of(v)
        if not is_char(v):
            raise Fault("non-character value assigned to substring")
        if self.hi < self.lo:
            return
        base = chars(self.cell.v) if self.cell.v is not UNDEF else [' '] * self.cell.clen
        base[self.lo - 1:self.hi] = chars(self.w.fit(v, self.hi - self.lo + 1))
        self.cell.v = mkchar(base)
