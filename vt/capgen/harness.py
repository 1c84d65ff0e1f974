"""Lockstep symbolic execution of generated capgen caps against an oracle computed from the scenario description."""
import os
import re
import shutil
import subprocess
import sys
import z3
from fractions import Fraction
from ..engine import Counterexample, Infeasible, Inconclusive, pyval
from ..fort.interp import (Program, World, Cell, Arr, DTObj, Slot, SymC, UNDEF, ABSENT, Fault, Stop, Unsupported, is_char, chars)
from ..fort.parser import Decl, TypeSpec
from ..runner import REPO
from .spec import Spec, V, Sub, flat, PHASES

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SRC = ['ccpp_hashable.F90', 'ccpp_hash_table.F90', 'ccpp_constituent_prop_mod.F90']
FC = ['gfortran', '-cpp', '-ffree-line-length-none', '-O0', '-w', '-g', '-fmax-errors=3', '-fcheck=all', '-fbacktrace']


def sh(cmd, cwd, timeout=180, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace',
                       env=env)
    return p.returncode, p.stdout


class Built:
    """A scenario run through the real generator."""
    def __init__(self, spec, dirn):
        self.spec = spec
        self.dir = dirn
        self.error = None        # (stage, text)
        self.out = os.path.join(dirn, 'out')

    def cmd(self):
        s = self.spec
        return [PY, os.path.join(REPO, 'scripts', 'ccpp_capgen.py'), '--host-files', ','.join(s.host_names()),
                '--scheme-files', 'schemes.txt', '--suites', ','.join('suite_%s.xml' % x.name for x in s.suites),
                '--host-name', s.host, '--output-root', 'out'] + s.flags

    def generate(self):
        self.spec.emit(self.dir)
        os.makedirs(self.out, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        rc, txt = sh(self.cmd(), self.dir, env=env)
        self.log = txt
        if rc != 0:
            self.error = ('generate', txt[-1500:])
        return self.error is None

    def files(self):
        """Fortran sources in compilation order."""
        s = self.spec
        o = [os.path.join('out', 'ccpp_kinds.F90')] + [os.path.join(REPO, 'src', x) for x in SRC]
        # schemes that define ddts used by host modules come first
        mods = [(m.name, set(m.uses)) for m in s.mods]
        schm = []
        for n in s.scheme_order:
            sc = s.schemes[n]
            schm.append((sc.module, set(s.scheme_uses(sc))))
        todo = mods + schm
        done = set()
        names = {t[0] for t in todo}
        order = []
        while todo:
            for t in todo:
                if not ((t[1] & names) - done - {t[0]}):
                    order.append(t[0])
                    done.add(t[0])
                    todo.remove(t)
                    break
            else:
                raise Inconclusive("cyclic scenario modules")
        o += [n + '.F90' for n in order]
        o += [os.path.join('out', 'ccpp_%s_cap.F90' % su.name) for su in s.suites]
        o.append(os.path.join('out', '%s_ccpp_cap.F90' % s.host))
        return o

    def compile(self):
        rc, txt = sh(FC + ['-c'] + self.files(), self.dir)
        if rc != 0:
            self.error = ('compile', txt[-1500:])
        return self.error is None

    def parse(self):
        self.program = Program()
        for f in self.files():
            self.program.add_file(os.path.join(self.dir, f))
        return self.program


def build(spec, dirn, compile=True):
    b = Built(spec, dirn)
    if b.generate() and (not compile or b.compile()):
        b.parse()
    return b


# ------------------------------------------------------------------ transforms (oracle's own table, physics not the framework's)
CONV = {('m', 'km'): (Fraction(1, 1000), 0), ('m', 'cm'): (100, 0), ('m', 'mm'): (1000, 0), ('m', 'um'): (10**6, 0),
        ('K', 'C'): (1, Fraction(-27315, 100)), ('Pa', 'hPa'): (Fraction(1, 100), 0), ('s', 'min'): (Fraction(1, 60), 0),
        ('s', 'h'): (Fraction(1, 3600), 0), ('s', 'd'): (Fraction(1, 86400), 0), ('kg kg-1', 'g kg-1'): (1000, 0),
        ('m s-1', 'km h-1'): (Fraction(36, 10), 0), ('W m-2', 'erg cm-2 s-1'): (1000, 0), ('mm', 'km'): (Fraction(1, 10**6), 0)}


def factor(src, dst):
    """(a, b) with x_dst = a*x_src + b."""
    if src == dst:
        return (Fraction(1), Fraction(0))
    if (src, dst) in CONV:
        a, b = CONV[src, dst]
        return Fraction(a), Fraction(b)
    if (dst, src) in CONV:
        a, b = CONV[dst, src]
        return 1 / Fraction(a), -Fraction(b) / Fraction(a)
    raise Inconclusive("oracle has no conversion %s -> %s" % (src, dst))


def lin(v, f):
    a, b = f
    if (a, b) == (1, 0) or v is None or v is UNDEF:
        return v
    if not isinstance(v, z3.ExprRef):
        v = z3.RealVal(v)
    return v * z3.RealVal(str(a)) + z3.RealVal(str(b))


class PoisonCell(Cell):
    """Storage of an inactive variable: any access is reported."""
    __slots__ = ('run', 'std', '_v')

    def __init__(self, run, std, t, v, clen=None):
        self.run = run
        self.std = std
        super().__init__(t, v, clen)

    @property
    def v(self):
        if self.run.inside and self.run.armed(self.std):
            raise Fault("storage of inactive variable %s read" % self.std)
        return self._v

    @v.setter
    def v(self, x):
        if self.run is not None and getattr(self, '_ready', True) and self.run.inside and self.run.armed(self.std):
            raise Fault("storage of inactive variable %s written" % self.std)
        self._v = x


class Mismatch(Exception):
    pass


class Run:
    """One symbolic execution of a scenario."""
    def __init__(self, built, eng, errors=False, sizes=None, poison='alloc', only=None, resize=None):
        self.resize = resize        # callable (V, extents) -> extents: host arrays of a wrong size (debug checks)
        self.resized = None         # standard name of the host array with a wrong size
        self.stopped = None
        self.allprops = False       # every assertion belongs to the property under test
        self.only = only            # property whose assertions are decided (others end the path or are skipped)
        self.nerr = 0
        self.p01_also = set()       # properties to which wrong scheme calls belong too (driver's choice)
        self.b = built
        self.spec = built.spec
        self.optstd = {a.std for sc in self.spec.schemes.values() for ph in sc.entries for a in sc.entries[ph] if a.optional}
        self.eng = eng
        self.w = World(built.program, eng)
        self.w.max_steps = 2000000
        self.w.lenient_sections = []
        self.errors = errors
        self.poison = poison
        self.sizes = dict(horizontal_dimension=2, vertical_layer_dimension=2)
        self.sizes.update(self.spec.sizes)
        if sizes:
            self.sizes.update(sizes)
        self.sizes.setdefault('vertical_interface_dimension', self.sizes['vertical_layer_dimension'] + 1)
        self.paths = self.spec.host_paths()
        self.omem = {}              # id(cell) -> expected value
        self.cells = []             # (std, index, cell) every host cell
        self.store = {}             # (suite, std) -> suite-owned values
        self.trace = []             # expected events for the replay
        self.ncall = 0
        self.inside = False
        self.exp = None
        self.nwrites = 0
        self.dontcare = set()
        self.current = None
        self.range = (None, None)
        self.unalloc = set()
        self.setup()
        for sc in self.spec.schemes.values():
            for ph in sc.entries:
                self.w.hooks[sc.proc(ph).lower()] = self.make_hook(sc, ph)

    # ------------------------------------------------------------- host memory
    def dimval(self, d):
        """(lower, upper) of one dimension string."""
        parts = d.split(':')
        lo, hi = ('ccpp_constant_one', parts[0]) if len(parts) == 1 else parts
        return self.std_int(lo.strip()), self.std_int(hi.strip())

    def std_int(self, s):
        if re.match(r'^-?\d+$', s):
            return int(s)
        if s == 'ccpp_constant_one':
            return 1
        if s == 'ccpp_constant_zero':
            return 0
        if s in self.sizes:
            return self.sizes[s]
        if s in self.spec.values:
            return self.spec.values[s]
        if s == 'horizontal_loop_extent':
            return self.range[1] - self.range[0] + 1
        if s == 'horizontal_loop_begin':
            return self.range[0]
        if s == 'horizontal_loop_end':
            return self.range[1]
        raise Inconclusive("dimension %s has no size" % s)

    def symval(self, v, name):
        e = self.eng
        if v.std in self.spec.values:
            return self.spec.values[v.std]
        if v.std in self.sizes:
            return self.sizes[v.std]
        if v.type == 'real':
            return e.real(name)
        if v.type == 'integer':
            return e.int(name)
        if v.type == 'logical':
            return e.bool(name)
        return 's_' + name

    def setup(self):
        self.ctl = {}
        self.hostset = []       # assignments for the replay: (fortran lhs, kind, value), allocations
        late = []
        for m in self.spec.mods:
            for v in (m.vars or ()):
                if v.noemit or '(' in v.local:
                    continue
                self.setup_var(v, self.w.var(m.name, v.base), v.base, late)
        for v in self.spec.host_vars:
            c = self.host_ctl(v, late)
            self.ctl[v.local] = c
        for f in late:
            f()

    def host_ctl(self, v, late):
        if v.std in ('ccpp_error_message',):
            return Cell('c', 'garbage'.ljust(512), 512)
        if v.std == 'ccpp_error_code':
            return Cell('i', 77)
        if v.std in ('horizontal_loop_begin', 'horizontal_loop_end'):
            return Cell('i', UNDEF)
        if v.isddt:
            td = self.w.find_type(v.type, self.w.scope(self.spec.ddts[v.type][1]))
            o = Cell('d', self.w.make_dt(td))
            self.setup_ddt(v.type, o.v, 'ctl_' + v.local, late)
            self.hostset.append(('decl', 'type(%s)' % v.type, 'ctl_' + v.local, ()))
            return o
        t = {'real': 'r', 'integer': 'i', 'logical': 'l', 'character': 'c'}[v.type]
        nm = 'ctl_' + v.local
        if v.dims:
            arr = self.new_arr(v, t, nm)
            self.hostset.append(('decl', v.ftype(), nm, arr.shape))
            return arr
        c = Cell(t, self.symval(v, 'h_' + v.std), 512 if t == 'c' else None)
        self.hostset.append(('decl', v.ftype(), nm, ()))
        self.reg(v.std, nm, c)
        return c

    def reg(self, std, lhs, c):
        self.cells.append((std, lhs, c))
        self.omem[id(c)] = c.v
        self.hostset.append(('set', lhs, c.v))

    def new_arr(self, v, t, lhs, poison=False):
        lbs, shp = [], []
        for d in v.dims:
            lo, hi = self.dimval(d)
            lbs.append(lo)
            shp.append(max(0, hi - lo + 1))
        if self.resize is not None:
            shp = self.resize(self, v, shp)
        n = 1
        for x in shp:
            n *= x
        cells = []
        for i in range(n):
            if poison:
                c = PoisonCell(self, v.std, t, self.symval(v, 'h_%s_%d' % (v.std, i)))
            else:
                c = Cell(t, self.symval(v, 'h_%s_%d' % (v.std, i)))
            cells.append(c)
        arr = Arr(cells, shp, lbs, t)
        self.hostset.append(('alloc', lhs, list(zip(lbs, shp)), bool(v.fdims)))
        for i, c in enumerate(cells):
            idx = []
            k = i
            for lo, ext in zip(lbs, shp):
                idx.append(str(lo + k % ext))
                k //= ext
            self.reg(v.std, '%s(%s)' % (lhs, ','.join(idx)), c)
        return arr

    def setup_var(self, v, slot, lhs, late):
        t = {'real': 'r', 'integer': 'i', 'logical': 'l', 'character': 'c'}.get(v.type, 'd')
        if t == 'd':
            if v.dims:
                raise Inconclusive("array of derived types in a scenario")
            self.setup_ddt(v.type, slot.val.v, lhs, late)
            return
        if v.dims:
            if v.cond is not None:
                def f():
                    act = self.eng.branch(v.cond(self.get))
                    if act or self.poison == 'alloc':
                        slot.val = self.new_arr(v, t, lhs, poison=True)
                    else:
                        self.unalloc.add(lhs.lower())
                late.append(f)
            else:
                def f():
                    slot.val = self.new_arr(v, t, lhs)
                if v.std in self.spec.values:
                    f()
                else:
                    late.append(f)
        else:
            if slot.alloc:
                raise Inconclusive("allocatable scalar in a scenario")
            c = slot.val
            c.v = self.symval(v, 'h_' + v.std)
            if t == 'c' and is_char(c.v) and c.clen:
                c.v = self.w.fit(c.v, c.clen)
            if v.cond is not None:
                pc = PoisonCell(self, v.std, t, c.v, c.clen)
                slot.val = c = pc
            self.reg(v.std, lhs, c)

    def setup_ddt(self, tname, obj, lhs, late):
        for v in self.spec.ddts[tname][0].vars:
            if v.noemit or '(' in v.local:
                continue
            self.setup_var(v, obj.f[v.base], '%s%%%s' % (lhs, v.base), late)

    def get(self, std):
        """Current host value of a scalar (expected value)."""
        if std in self.sizes and std not in self.paths:
            return self.sizes[std]
        if std == 'horizontal_loop_begin':
            return self.range[0]
        if std == 'horizontal_loop_end':
            return self.range[1]
        c = self.host_ref(std)
        return self.omem[id(c)]

    def host_ref(self, std):
        """Actual host object (Cell/Arr) of a standard name, or None."""
        v, path = self.paths[std]
        obj = None
        for p in path:
            if p[0] == 'mod':
                obj = self.w.var(p[1], p[2]).val
            elif p[0] == 'ctl':
                obj = self.ctl[p[1]]
            elif p[0] == 'comp':
                obj = obj.v.f[p[1]].val
            elif p[0] == 'index':
                if obj is None:
                    return None
                fix = []
                for x in p[1]:
                    fix.append(None if x == ':' else int(x) if x.isdigit() else self.as_int(self.get(x)))
                obj = self.section(obj, fix)
            if obj is None:
                return None
        return obj

    def as_int(self, v):
        return v if isinstance(v, int) else self.eng.concretize(v)

    @staticmethod
    def section(arr, fix):
        """Array section with some dimensions fixed."""
        shp, lbs, cells = [], [], []
        strides = []
        k = 1
        for ext in arr.shape:
            strides.append(k)
            k *= ext
        free = [i for i, f in enumerate(fix) if f is None]
        off = 0
        for i, f in enumerate(fix):
            if f is not None:
                j = f - arr.lb[i]
                if not 0 <= j < arr.shape[i]:
                    return None
                off += j * strides[i]
        shp = [arr.shape[i] for i in free]
        lbs = [arr.lb[i] for i in free]
        n = 1
        for x in shp:
            n *= x
        for m in range(n):
            k, o = m, off
            for i, ext in zip(free, shp):
                o += (k % ext) * strides[i]
                k //= ext
            cells.append(arr.cells[o])
        if not shp:
            return cells[0]
        return Arr(cells, shp, lbs, arr.t)

    def active(self, std):
        """Truth (forking) of the activity condition of host variable std."""
        v = self.paths[std][0]
        if v.cond is None:
            return True
        return self.eng.branch(v.cond(self.get))

    def armed(self, std):
        ins, self.inside = self.inside, False
        try:
            return not self.active(std)
        finally:
            self.inside = ins

    # ------------------------------------------------------------- oracle
    def fail(self, props, msg, cond=False):
        """Assertion: cond must hold."""
        props = set(props)
        if 'P01' in props:
            props |= self.p01_also
        if self.allprops:
            props.add(self.only)
        if self.only is not None and self.only not in props:
            if cond is False:
                self.eng.reach('left at an assertion of another property')
                raise Infeasible()
            return
        self.eng.check(cond, '%s|%s' % (','.join(sorted(props)), msg))

    def eq(self, a, b):
        if a is UNDEF or b is UNDEF:
            return a is b
        if is_char(a) or is_char(b):
            if not (is_char(a) and is_char(b)):
                return False
            x, y = chars(a), chars(b)
            n = max(len(x), len(y))
            x = x + [' '] * (n - len(x))
            y = y + [' '] * (n - len(y))
            cs = []
            for p, q in zip(x, y):
                if isinstance(p, str) and isinstance(q, str):
                    if p != q:
                        return False
                else:
                    cs.append(self.w.ceq(p, q))
            return z3.And(cs) if cs else True
        if isinstance(a, DTObj) or isinstance(b, DTObj):
            return a is b
        if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            return a == b
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        za = a if isinstance(a, z3.ExprRef) else z3.RealVal(a)
        zb = b if isinstance(b, z3.ExprRef) else z3.RealVal(b)
        if z3.is_bool(za) != z3.is_bool(zb):
            return False
        return za == zb

    def expected(self, suite, phase, part):
        """Generator of expected scheme calls (scheme names)."""
        if phase == 'run':
            items = dict(suite.groups)[part]

            def walk(its):
                for it in its:
                    if isinstance(it, Sub):
                        n = 1 if not it.loop else int(it.loop) if re.match(r'^-?\d+$', it.loop) else self.as_int(self.get(it.loop))
                        for _ in range(n):
                            for x in walk(it.items):
                                yield x
                    elif 'run' in self.spec.schemes[it].entries:
                        vd = self.spec.vertical(it)
                        for lv in range(1, self.std_int(vd) + 1) if vd else [None]:
                            self.level = lv
                            yield it
            it = walk(items)
        else:
            it = (s for s in self.spec.sched(suite) if phase in self.spec.schemes[s].entries)
        for x in it:
            if self.resized is not None and self.rejects(self.spec.schemes[x], phase):
                self.stopped = x
                return
            yield x

    def rejects(self, sc, phase):
        """Does the wrongly sized array reach this scheme whole?"""
        for a in sc.args(phase):
            if a.std == self.resized and self.active(a.std):
                if phase == 'run':
                    raise Infeasible()      # passed as a section with the declared bounds: outside
                return True
        return False

    def make_hook(self, sc, ph):
        def hook(w, fr):
            self.inside = False
            try:
                self.on_scheme(sc, ph, fr)
            finally:
                self.inside = True
        return hook

    def on_scheme(self, sc, ph, fr):
        k = self.ncall
        self.ncall += 1
        if self.aborted:
            self.trace.append(('noscheme',))
            self.fail({'P05'}, "scheme %s called after a scheme of the phase call reported an error" % sc.proc(ph))
        if self.exp is None:
            self.trace.append(('noscheme',))
            self.fail(self.reject_props, "scheme %s called although the call had to be rejected" % sc.proc(ph))
        want = next(self.exp, None)
        if want is None:
            self.trace.append(('noscheme',))
            self.fail({'P01'}, "scheme %s called after all expected schemes of %s" % (sc.proc(ph), self.current))
        if want != sc.name or ph != self.phase:
            self.trace.append(('call', self.spec.schemes[want].proc(self.phase), None, None))
            self.fail({'P01'}, "%s: %s called where %s is next" % (self.current, sc.proc(ph), self.spec.schemes[want].proc(self.phase)))
        proc = sc.proc(ph)
        ev = ['call', proc, [], []]
        self.trace.append(ev)
        args = sc.args(ph)
        plans = []
        for a in args:
            plans.append(self.plan(a, proc))
        for a, (kind, vals, shape, wb, props) in zip(args, plans):
            ev[2].append((a.local, kind, vals if a.intent != 'out' else None, shape))
        for a, (kind, vals, shape, wb, props) in zip(args, plans):
            sl = fr.vars[a.local.lower()]
            where = "%s, argument %s (%s)" % (proc, a.local, a.std)
            act = sl.val
            if kind == 'err':
                continue
            if kind == 'absent':
                if act is not ABSENT and not (act is None):
                    self.fail(props, where + ": present although inactive")
                continue
            if kind == 'any':
                continue
            if act is ABSENT or act is None:
                self.fail(props, where + ": absent although active")
            if kind == 'ddt':
                self.check_ddt(act, vals, where, props, a)
                continue
            if isinstance(act, Cell):
                cells, ashape = [act], ()
            else:
                cells, ashape = act.cells, act.shape
            if tuple(ashape) != tuple(shape):
                self.fail(props, where + ": shape %s instead of %s" % (tuple(ashape), tuple(shape)))
            if a.intent != 'out':
                conds = []
                for c, x in zip(cells, vals):
                    if x is None:
                        continue
                    q = self.eq(c.v, x)
                    if q is False:
                        self.fail(props, where + ": wrong value")
                    if q is not True:
                        conds.append(q)
                self.eng.reach('value')
                if conds:
                    self.fail(props, where + ": wrong value", z3.And(conds))
                else:
                    self.eng.stats.asserts_trivial += 1
        # outputs
        err = None
        for a, (kind, vals, shape, wb, props) in zip(args, plans):
            sl = fr.vars[a.local.lower()]
            if kind == 'err' or a.intent == 'in' or kind in ('absent', 'any'):
                continue
            if kind == 'ddt':
                outs = []
                self.write_ddt(a, sl.val, outs, k)
                ev[3].append((a.local, 'ddt', outs))
                continue
            cells = [sl.val] if isinstance(sl.val, Cell) else sl.val.cells
            outs = []
            fixed = self.spec.values.get('out:' + a.std)
            for i, c in enumerate(cells):
                nm = 'o%d_%s_%d' % (k, a.local, i)
                if fixed is not None:
                    x = fixed(self, k) if callable(fixed) else fixed
                else:
                    x = self.eng.real(nm) if a.type == 'real' else self.eng.int(nm) if a.type == 'integer' else \
                        self.eng.bool(nm) if a.type == 'logical' else nm
                if a.type == 'character':
                    x = self.w.fit(x, c.clen or 16)
                c.v = x
                outs.append(x)
            wb(outs)
            ev[3].append((a.local, shape, outs))
        code = 0
        msg = ''
        if self.errors and (self.errors is True or self.errors(self, proc, k)):
            code = self.eng.int('e%d' % k)
            if not self.eng.branch(code == 0):
                msg = 'err%d %s' % (k, proc)
                self.aborted = True
                self.nerr += 1
                self.err = (code, msg)
                self.eng.reach('scheme error')
        for a in args:
            if a.std == 'ccpp_error_code':
                fr.vars[a.local.lower()].val.v = code
                ev[3].append((a.local, (), [code]))
            elif a.std == 'ccpp_error_message':
                c = fr.vars[a.local.lower()].val
                c.v = msg.ljust(c.clen or 512)
                ev[3].append((a.local, (), [msg]))
        ev[3] = list(ev[3])
        self.trace[-1] = tuple(ev)
        self.eng.reach('scheme call')

    def owner(self, a):
        return None

    level = None        # of the vertical loop around the scheme

    def plan(self, a, proc):
        """(kind, expected values, shape, writeback, props) of a scheme argument at this moment."""
        std = a.std
        if std in ('ccpp_error_code', 'ccpp_error_message'):
            return ('err', None, (), None, ())
        if self.phase == 'run' and std == 'horizontal_loop_extent':
            return ('val', [self.range[1] - self.range[0] + 1], (), lambda o: None, {'P02'})
        if self.phase == 'run' and std in ('horizontal_loop_begin', 'horizontal_loop_end') and std in self.paths:
            return ('val', [self.range[0 if std.endswith('begin') else 1]], (), lambda o: None, {'P02'})
        if std == 'ccpp_constant_one':
            return ('val', [1], (), lambda o: None, {'P02'})
        if a.type == 'ccpp_constituent_properties_t':
            return ('any', None, None, None, ())
        hv = self.paths.get(std)
        props = {'P02'}
        if hv is None:
            if a.optional:
                return ('absent', None, None, None, {'P04'})
            return self.plan_suite(a)
        v, path = hv
        if a.isddt:
            return ('ddt', self.host_ref(std), None, None, props)
        if v.cond is not None or a.optional:
            props = {'P04'}
            if not self.active(std):
                return ('absent', None, None, None, props)
        ref = self.host_ref(std)
        conv = factor(v.units, a.units) if a.units != v.units else (Fraction(1), Fraction(0))
        if conv != (1, 0) or bool(a.top) != bool(v.top) or (a.kind != v.kind and v.type != 'character'):
            props = props | {'P03'}
            if 'P02' in props:
                props = {'P03'}
        inv = factor(a.units, v.units) if a.units != v.units else (Fraction(1), Fraction(0))
        if ref is None:
            raise Inconclusive("oracle: no storage for %s" % std)
        if isinstance(ref, Cell):
            def wb(outs, ref=ref, inv=inv):
                self.omem[id(ref)] = lin(outs[0], inv)
                if self.aborted:
                    self.dontcare.add(id(ref))
            return ('val', [lin(self.omem[id(ref)], conv)], (), wb, props)
        # array: restrict the horizontal dimension in the run phase
        sel = []
        shp = []
        fixed = []
        for i, d in enumerate(v.dims):
            lo, hi = ref.lb[i], ref.lb[i] + ref.shape[i] - 1
            dl = [x.strip() for x in d.split(':')]
            r = range(lo, hi + 1)
            if self.phase == 'run' and dl[-1] == 'horizontal_dimension' and dl[0] in ('horizontal_dimension', 'ccpp_constant_one', '1'):
                r = range(self.range[0], self.range[1] + 1)
            if 'vertical' in d and bool(a.top) != bool(v.top):
                r = range(hi, lo - 1, -1)
            if self.level is not None and 'vertical' in d and not any('vertical' in x for x in a.dims):
                r = [lo + self.level - 1]
                fixed.append(i)
            sel.append([x - lo for x in r])
            shp.append(len(sel[-1]))
        strides = []
        k = 1
        for ext in ref.shape:
            strides.append(k)
            k *= ext
        n = 1
        for x in shp:
            n *= x
        target = []
        for m in range(n):
            k, o = m, 0
            for i, ext in enumerate(shp):
                o += sel[i][k % ext] * strides[i]
                k //= ext
            target.append(ref.cells[o])
        vals = [lin(self.omem[id(c)], conv) for c in target]

        def wb(outs):
            for c, x in zip(target, outs):
                self.omem[id(c)] = lin(x, inv)
                if self.aborted:
                    self.dontcare.add(id(c))
        return ('val', vals, tuple(x for i, x in enumerate(shp) if i not in fixed), wb, props)

    def plan_suite(self, a):
        """A variable owned by the suite."""
        key = (self.suite.name, a.std)
        st = self.store.get(key)
        props = {'P10'}
        dims = []
        adims = list(a.dims)
        fixed = None
        if st is not None and self.level is not None and not any('vertical' in d for d in adims):
            fixed = next((i for i, d in enumerate(st['dims']) if 'vertical' in d), None)
            if fixed is not None:
                adims.insert(fixed, st['dims'][fixed])
        for d in adims:
            dl = [x.strip() for x in d.split(':')]
            hor = dl[-1] in ('horizontal_loop_extent', 'horizontal_dimension', 'horizontal_loop_end')
            if hor:
                dims.append(('h', 1, self.sizes['horizontal_dimension']))
            else:
                lo, hi = self.dimval(d)
                dims.append(('x', lo, hi))
        full = [hi - lo + 1 for _, lo, hi in dims]
        if st is None:
            n = 1
            for x in full:
                n *= x
            st = self.store[key] = dict(vals=[None] * n, units=a.units, kind=a.kind, top=a.top, shape=full, dims=list(a.dims),
                                        default=a.default if a.intent != 'out' else None)
            if st['default'] is not None:
                st['vals'] = [z3.RealVal(str(st['default']))] * n
        sel = []
        for j, ((k, lo, hi), d) in enumerate(zip(dims, adims)):
            r = list(range(hi - lo + 1))
            if j == fixed:
                r = [self.level - 1]
            if k == 'h' and self.phase == 'run':
                r = list(range(self.range[0] - 1, self.range[1]))
            if 'vertical' in d and bool(a.top) != bool(st['top']):
                r = r[::-1]
            sel.append(r)
        if a.units != st['units'] or bool(a.top) != bool(st['top']) or a.kind != st['kind']:
            props = {'P03', 'P10'}
        conv = factor(st['units'], a.units)
        inv = factor(a.units, st['units'])
        shp = [len(r) for r in sel]
        n = 1
        for x in shp:
            n *= x
        idx = []
        for m in range(n):
            k, o, s = m, 0, 1
            for r, ext in zip(sel, st['shape']):
                o += r[k % len(r)] * s
                k //= len(r)
                s *= ext
            idx.append(o)
        vals = [lin(st['vals'][i], conv) for i in idx]

        def wb(outs):
            for i, x in zip(idx, outs):
                st['vals'][i] = lin(x, inv)
        return ('val', vals, tuple(x for j, x in enumerate(shp) if j != fixed), wb, props)

    # derived type arguments passed whole
    def ddt_leaves(self, tname, obj, pre=''):
        for v in self.spec.ddts[tname][0].vars:
            if v.noemit or '(' in v.local:
                continue
            sl = obj.f[v.base]
            if v.isddt:
                for x in self.ddt_leaves(v.type, sl.val.v, pre + v.base + '%'):
                    yield x
            else:
                yield (v, pre + v.base, sl.val)

    def check_ddt(self, act, ref, where, props, a):
        if not isinstance(act, Cell) or not isinstance(act.v, DTObj):
            self.fail(props, where + ": not an object of type " + a.type)
        for (v, nm, x), (_, _, y) in zip(self.ddt_leaves(a.type, act.v), self.ddt_leaves(a.type, ref.v)):
            xs = [] if x is None else [x] if isinstance(x, Cell) else x.cells
            ys = [] if y is None else [y] if isinstance(y, Cell) else y.cells
            if len(xs) != len(ys):
                self.fail(props, where + ": component %s differs" % nm)
            for c, d in zip(xs, ys):
                q = self.eq(c.v, self.omem.get(id(d), d.v))
                if q is not True:
                    self.fail(props, where + ": component %s has a wrong value" % nm, q)

    def write_ddt(self, a, act, outs, k):
        for v, nm, x in self.ddt_leaves(a.type, act.v):
            if 'protected = True' in v.extra or v.std in self.sizes or v.std in self.spec.values:
                continue
            xs = [] if x is None else [x] if isinstance(x, Cell) else x.cells
            o = []
            for i, c in enumerate(xs):
                n = 'o%d_%s_%s_%d' % (k, a.local, nm.replace('%', '_'), i)
                c.v = self.eng.real(n) if v.type == 'real' else self.eng.int(n) if v.type == 'integer' else self.eng.bool(n)
                if id(c) in self.omem:
                    self.omem[id(c)] = c.v
                o.append(c.v)
            if xs:
                outs.append((nm, () if isinstance(x, Cell) else x.shape, o))

    # ------------------------------------------------------------- host calls
    def capmod(self):
        return '%s_ccpp_cap' % self.spec.host

    def call_phase(self, phase, suite, part=None, rng=None, expect='ok', reject_props=('P06',), suite_arg=None, part_arg=None):
        """Call the host interface and check everything."""
        self.phase = phase
        self.suite = next((s for s in self.spec.suites if s.name == suite), None)
        self.aborted = False
        self.err = None
        self.dontcare = set()
        self.reject_props = set(reject_props)
        if phase == 'run':
            self.range = rng or (1, self.sizes['horizontal_dimension'])
        else:
            self.range = (None, None)
        for (su, std), st in self.store.items():
            # a variable which only has a default value starts with it: in each call if one group uses it, else once per initialisation
            if su == suite and st['default'] is not None and (phase == 'initialize' or self.spec.one_group(self.suite, std)):
                st['vals'] = [z3.RealVal(str(st['default']))] * len(st['vals'])
        self.current = "%s of %s%s" % (phase, suite, '/' + part if part else '')
        self.exp = self.expected(self.suite, phase, part) if expect == 'ok' else None
        name = '%s_ccpp_physics_%s' % (self.spec.host, phase)
        proc = self.w.scope(self.capmod()).lookup(name.lower())
        if proc is None or isinstance(proc, Slot):
            self.fail({'P01', 'P07'}, "no routine %s" % name)
        kw = {}
        bylocal = {v.local.lower(): v for v in self.spec.host_vars}
        saved = []
        trargs = []
        for d in proc.args:
            if d == 'suite_name':
                kw[d] = suite_arg if suite_arg is not None else Cell('c', suite, len(suite))
                trargs.append((d, 'str', kw[d].v))
            elif d == 'suite_part':
                kw[d] = part_arg if part_arg is not None else Cell('c', part, len(part))
                trargs.append((d, 'str', kw[d].v))
            elif d in bylocal:
                v = bylocal[d]
                c = self.ctl[v.local]
                if v.std == 'ccpp_error_code':
                    c.v = 77
                elif v.std == 'ccpp_error_message':
                    c.v = 'garbage'.ljust(512)
                elif v.std == 'horizontal_loop_begin':
                    c.v = self.range[0] if self.range[0] is not None else 1
                elif v.std == 'horizontal_loop_end':
                    c.v = self.range[1] if self.range[1] is not None else 1
                kw[d] = c
                trargs.append((d, v.std, None))
            else:
                self.fail({'P02'}, "host routine %s has an unexpected dummy argument %s" % (name, d))
        self.trace.append(('phase', name, trargs, self.range))
        self.inside = True
        try:
            self.w.call(self.capmod(), name, **kw)
        except Fault as f:
            self.inside = False
            p = {'P04'} if 'inactive' in str(f) else set(self.spec.props) | ({'P10'} if 'alloc' in str(f) else set())
            self.trace.append(('fault', str(f)))
            self.fail(p, "%s: illegal Fortran operation: %s" % (self.current, f))
        finally:
            self.inside = False
        flg = next(self.ctl[v.local] for v in self.spec.host_vars if v.std == 'ccpp_error_code')
        msg = next(self.ctl[v.local] for v in self.spec.host_vars if v.std == 'ccpp_error_message')
        if expect == 'ok':
            if not self.aborted:
                nxt = next(self.exp, None)
                if self.stopped is not None:
                    self.trace.append(('retfail', None))
                    where = 'array %s with a wrong size reaches %s' % (self.resized, self.spec.schemes[self.stopped].proc(phase))
                    self.fail({'P09'}, where + ' without an error', self.eq(flg.v, 0) is False)
                    nm = {self.paths[self.resized][0].base} | {a.local for sc in self.spec.schemes.values() for ph in sc.entries
                                                               for a in sc.args(ph) if a.std == self.resized}
                    txt = msg.v if isinstance(msg.v, str) else ''
                    self.fail({'P09'}, '%s: message "%s" does not name it' % (where, txt.rstrip()),
                              any(re.search(r'\b%s\b' % re.escape(n), txt) for n in nm))
                    self.check_memory('ok')
                    self.eng.reach('wrong size reported')
                    self.eng.stats.asserts_trivial += 1
                    return
                if nxt is not None:
                    self.trace.append(('call', self.spec.schemes[nxt].proc(phase), None, None))
                    got = '' if self.eq(flg.v, 0) is True else ' (error code %s, message %s)' % (flg.v, trimmed(msg.v))
                    self.fail({'P01'} if not got else {'P01', 'P05', 'P06', 'P07', 'P09'},
                              "%s returned without calling %s%s" % (self.current, self.spec.schemes[nxt].proc(phase), got))
                self.trace.append(('ret', 0, ''))
                self.fail({'P05'}, "%s: nonzero error code without a scheme error" % self.current, self.eq(flg.v, 0))
                q = self.eq(msg.v, '')
                if q is not True:
                    self.fail({'P05'}, "%s: error message without a scheme error" % self.current, q)
            else:
                self.trace.append(('ret', self.err[0], self.err[1]))
                self.fail({'P05'}, "%s: error code of the scheme does not reach the host" % self.current, self.eq(flg.v, self.err[0]))
                q = self.eq(msg.v, self.err[1])
                if q is not True:
                    self.fail({'P05'}, "%s: error message of the scheme does not reach the host" % self.current, q)
        else:
            self.trace.append(('retfail', getattr(self, 'must_contain', None)))
            if isinstance(flg.v, int):
                self.fail(self.reject_props, "%s accepted although it has to be rejected" % self.current, flg.v != 0)
            else:
                self.fail(self.reject_props, "%s accepted although it has to be rejected" % self.current, flg.v != 0)
            q = self.eq(msg.v, '')
            self.fail(self.reject_props, "%s rejected without a message" % self.current,
                      (not q) if isinstance(q, bool) else z3.Not(q))
        self.last = (flg.v, msg.v)
        self.exp = None
        self.check_memory(expect)
        self.eng.reach('phase call')

    # ------------------------------------------------------------- queries
    def query(self, routine, listarg, expected, suite_arg=None, flags=(), props=('P08',), note='', ordered=False):
        """Call a query routine.  expected: (must, may) sets of entries, or None if the call has to be rejected."""
        props = set(props)
        self.current = '%s%s' % (routine, note)
        self.suite = None
        self.exp = None
        self.reject_props = props
        proc = self.w.scope(self.capmod()).lookup(routine)
        if proc is None or isinstance(proc, Slot):
            self.fail(props, 'no routine %s' % routine)
        fl = dict(flags)
        kw = {}
        tr = []
        sl = Slot('vt_list', Decl('vt_list', TypeSpec('character', len=('int', 64, None)), [('slice', None, None)], frozenset({'allocatable'}), None, None, None, 0),
                  1, True, False, self.w.scope(self.capmod()))
        flg, msg = Cell('i', 77), Cell('c', 'garbage'.ljust(512), 512)
        bylocal = {v.local.lower(): v.std for v in self.spec.host_vars}
        for d in proc.args:
            if d == 'suite_name':
                kw[d] = suite_arg
                tr.append((d, 'str', suite_arg.v))
            elif d == listarg:
                kw[d] = sl
                tr.append((d, 'list', None))
            elif bylocal.get(d) == 'ccpp_error_code':
                kw[d] = flg
                tr.append((d, 'flg', None))
            elif bylocal.get(d) == 'ccpp_error_message':
                kw[d] = msg
                tr.append((d, 'msg', None))
            elif d in fl:
                if fl[d] is not None:
                    kw[d] = Cell('l', fl[d])
                    tr.append((d, 'log', fl[d]))
            else:
                self.fail(props, 'query routine %s has an unexpected dummy argument %s' % (routine, d))
        haserr = any(k == 'flg' for _, k, _ in tr)
        self.trace.append(('query', routine, tr, expected, haserr, ordered))
        try:
            self.w.call(self.capmod(), routine, **kw)
        except Fault as f:
            self.fail(props, '%s: illegal Fortran operation: %s' % (self.current, f))
        self.eng.reach('query')
        if expected is None:
            self.fail(props, '%s: accepted although it has to be rejected' % self.current, flg.v != 0)
            q = self.eq(msg.v, '')
            self.fail(props, '%s: rejected without a message' % self.current, (not q) if isinstance(q, bool) else z3.Not(q))
            self.last = (flg.v, msg.v)
            return
        if haserr:
            self.fail(props, '%s: error code for a valid query' % self.current, self.eq(flg.v, 0))
            q = self.eq(msg.v, '')
            self.fail(props, '%s: error message for a valid query' % self.current, q)
        if sl.val is None:
            self.fail(props, '%s: list not allocated' % self.current)
        got = []
        for c in sl.val.cells:
            if not isinstance(c.v, str):
                self.fail(props, '%s: entry %d of the list is not set' % (self.current, len(got) + 1))
            got.append(c.v.rstrip())
        must, may = expected
        if len(set(got)) != len(got):
            self.fail(props, '%s: duplicate entries in %s' % (self.current, sorted(got)))
        if set(must) - set(got):
            self.fail(props, '%s: %s missing' % (self.current, sorted(set(must) - set(got))))
        if set(got) - set(must) - set(may):
            self.fail(props, '%s: %s reported' % (self.current, sorted(set(got) - set(must) - set(may))))
        if ordered and got != list(must):
            self.fail(props, '%s: order %s instead of %s' % (self.current, got, list(must)))
        self.eng.stats.asserts_trivial += 1

    def check_memory(self, expect):
        self.trace.append(('mem', [(lhs, self.omem[id(c)] if id(c) not in self.dontcare else None) for std, lhs, c in self.cells]))
        groups = {}
        props = self.reject_props if expect != 'ok' else None
        for std, lhs, c in self.cells:
            if id(c) in self.dontcare:
                self.omem[id(c)] = raw(c)
                continue
            q = self.eq(raw(c), self.omem[id(c)])
            if q is True:
                continue
            v = self.paths[std][0] if std in self.paths else None
            p = props or ({'P04'} if v is not None and (v.cond is not None or std in self.optstd) else {'P02', 'P03'})
            if q is False:
                self.fail(p, "after %s: host variable %s = %s has a wrong value" % (self.current, std, lhs), q)
            groups.setdefault((frozenset(p), std), []).append((q, lhs))
        for (p, std), l in groups.items():
            self.fail(p, "after %s: host variable %s = %s has a wrong value" % (self.current, std, l[0][1]), z3.And([q for q, _ in l]))


def raw(c):
    return c._v if isinstance(c, PoisonCell) else c.v


def trimmed(v):
    return v.rstrip() if isinstance(v, str) else v
