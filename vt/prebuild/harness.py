"""Lockstep symbolic execution of the caps ccpp_prebuild generates against an oracle computed from the scenario description."""
import os
import re
import z3
from fractions import Fraction
from ..engine import Infeasible, Inconclusive
from ..fort.interp import Program, World, Cell, Arr, Slot, UNDEF, Fault, is_char
from ..runner import REPO
from ..capgen.harness import Built, Run, PoisonCell, sh, FC, PY, factor, lin, raw
from ..capgen.replay import Replay, lit, logcall
from .spec import H, HL, STAGES

T = {'real': 'r', 'integer': 'i', 'logical': 'l', 'character': 'c'}
NTHR = 3
CDATA = ('blk_no', 'chunk_no', 'thrd_no', 'thrd_cnt', 'ccpp_instance')
# which property an assertion of the capgen harness belongs to here
PROPS = {'P01': 'P21', 'P05': 'P21', 'P06': 'P21', 'P07': 'P21', 'P02': 'P22', 'P03': 'P22', 'P04': 'P22', 'P10': 'P22', 'P09': 'P22'}


class PBuilt(Built):
    def __init__(self, spec, dirn):
        Built.__init__(self, spec, dirn)
        self.out = os.path.join(dirn, 'build')

    def cmd(self):
        return self.spec.cmd(PY, os.path.join(REPO, 'scripts'))

    def generate(self):
        os.makedirs(self.dir, exist_ok=True)
        self.spec.emit(self.dir)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        rc, txt = sh(self.cmd(), self.dir, env=env)
        self.log = txt
        if rc != 0:
            self.error = ('generate', txt[-1500:])
        return self.error is None

    def files(self):
        s = self.spec
        o = ['mpi_f08.F90', os.path.join(REPO, 'src', 'ccpp_types.F90'), 'ccpp_kinds.F90', 'data.F90'] + [n + '.F90' for n in s.scheme_order]
        for su in s.suites:
            o += [os.path.join('build', 'ccpp_%s_%s_cap.F90' % (su.name, g)) for g in s.group_names(su)]
            o.append(os.path.join('build', 'ccpp_%s_cap.F90' % su.name))
        return o + [os.path.join('build', 'ccpp_static_api.F90')]


class PRun(Run):
    """One symbolic execution of a scenario."""
    def __init__(self, built, eng, errors=False, poison='alloc', only=None, blksz=None, resize=None, sizes=None):
        self.resize, self.resized, self.stopped, self.allprops, self.only = resize, None, None, False, only
        self.nerr, self.p01_also, self.b, self.spec, self.eng = 0, set(), built, built.spec, eng
        self.w = World(built.program, eng)
        self.w.max_steps = 2000000
        self.w.lenient_sections = []
        self.errors, self.poison = errors, poison
        big = bool(sizes)
        self.blksz = blksz or ([1, 3, 2] if big else self.spec.blksz)
        self.sizes = {H: sum(self.blksz), 'size_x': 3 if big else 2, 'ccpp_block_count': len(self.blksz), 'ccpp_chunk_extent': len(self.blksz)}
        self.sizes.update(self.spec.sizes)
        self.paths = {v.std: (v, None) for v in self.spec.allvars()}
        self.omem, self.cells, self.trace, self.store = {}, [], [], {}
        self.ncall, self.inside, self.exp, self.nwrites = 0, False, None, 0
        self.dontcare, self.current, self.range, self.unalloc = set(), None, (None, None), set()
        self.blk = self.inst = 1
        self.thrd = (1, 1)
        self.up = {}
        self.optstd = set()
        self.hostset = []
        self.setup()
        for sc in self.spec.schemes.values():
            for st in sc.entries:
                self.w.hooks[sc.proc(st).lower()] = self.make_hook(sc, st)

    def fail(self, props, msg, cond=False):
        Run.fail(self, {PROPS.get(p, p) for p in props}, msg, cond)

    # ------------------------------------------------------------- host memory
    def setup(self):
        self.ctl = {}
        self.cdata = Cell('d', self.w.make_dt(self.w.find_type('ccpp_t', self.w.scope('ccpp_types'))))
        s, late = self.spec, []
        mod = lambda n: self.w.var('data', n)
        if s.kind in ('chunked', 'mixed'):
            b = 0
            begin, end = [], []
            for n in self.blksz:
                begin.append(b + 1)
                b += n
                end.append(b)
            self.hostset.append(('raw', 'nchunks = %d' % len(begin)))
            mod('nchunks').val.v = len(begin)
            for n, l in (('chunk_begin', begin), ('chunk_end', end)):
                mod(n).val = Arr([Cell('i', x) for x in l], [len(l)], [1], 'i')
                self.hostset.append(('raw', 'allocate(%s(%d)); %s = [%s]' % (n, len(l), n, ', '.join(map(str, l)))))
        if s.kind in ('blocked', 'mixed'):
            mod('nblks').val.v = len(self.blksz)
            mod('blksz').val = Arr([Cell('i', x) for x in self.blksz], [len(self.blksz)], [1], 'i')
            td = self.w.find_type('blk_t', self.w.scope('data'))
            mod('blk').val = Arr([Cell('d', self.w.make_dt(td)) for _ in self.blksz], [len(self.blksz)], [1], 'd')
            self.hostset.append(('raw', 'nblks = %d; allocate(blksz(%d), blk(%d)); blksz = [%s]' % (
                len(self.blksz), len(self.blksz), len(self.blksz), ', '.join(map(str, self.blksz)))))
        for v in s.hosts:
            if not v.noemit:
                self.setup_var(v, mod(v.base), v.base, late)
        for t, inst, vs in s.ddts:
            obj = mod(inst).val.v
            for v in vs:
                if not v.noemit:
                    self.setup_var(v, obj.f[v.base], '%s%%%s' % (inst, v.base), late)
        if s.threaded:
            td = self.w.find_type('thr_t', self.w.scope('data'))
            mod('thr').val = Arr([Cell('d', self.w.make_dt(td)) for _ in range(NTHR)], [NTHR], [1], 'd')
            self.hostset.append(('raw', 'allocate(thr(%d))' % NTHR))
            for k in range(NTHR):
                for v in s.threaded:
                    self.setup_var(v, mod('thr').val.cells[k].v.f[v.base], 'thr(%d)%%%s' % (k + 1, v.base), late, None, k)
        for nb in range(len(self.blksz) if s.kind in ('blocked', 'mixed') else 0):
            obj = mod('blk').val.cells[nb].v
            for v in s.blocks:
                if not v.noemit:
                    self.setup_var(v, obj.f[v.base], 'blk(%d)%%%s' % (nb + 1, v.base), late, nb)
        for f in late:
            f()

    def setup_var(self, v, slot, lhs, late, nb=None, thr=None):
        if v.dims:
            def f():
                self.nb, self.nt = nb, thr
                if v.cond is not None and not self.eng.branch(v.cond(self.get)) and self.poison != 'alloc':
                    self.unalloc.add(lhs.lower())
                    return
                slot.val = self.new_arr(v, T[v.type], lhs, poison=v.cond is not None)
            late.append(f)
            return
        c = slot.val
        self.nb, self.nt = nb, thr
        c.v = self.symval(v, 'h_' + v.std)
        if v.type == 'character':
            c.v = self.w.fit(c.v, c.clen)
        if v.cond is not None:
            pc = PoisonCell(self, v.std, T[v.type], c.v, c.clen)
            slot.val = c = pc
        self.reg(v.std, lhs, c)

    def dimval(self, d):
        """(lower, upper) of the storage of a host dimension."""
        lo, _, hi = d.rpartition(':')
        return self.std_int(lo.strip() or 'ccpp_constant_one'), self.std_int(hi.strip())

    def std_int(self, s):
        if s == HL and self.spec.kind in ('blocked', 'mixed'):
            return self.blksz[self.nb]
        return Run.std_int(self, s)

    def symval(self, v, name):
        return Run.symval(self, v, name + ('' if self.nb is None else '_b%d' % self.nb) + ('' if self.nt is None else '_t%d' % self.nt))

    nb = nt = None

    def slots(self, v):
        """Storage of a host variable: one object, or one per block."""
        for t, inst, vs in self.spec.ddts:
            if v in vs:
                return self.w.var('data', inst).val.v.f[v.base].val
        if v in self.spec.threaded:
            return self.w.var('data', 'thr').val.cells[self.thrd[0] - 1].v.f[v.base].val
        if v in self.spec.blocks:
            return [c.v.f[v.base].val for c in self.w.var('data', 'blk').val.cells]
        return self.w.var('data', v.base).val

    def pick(self, v, obj):
        """Section of the storage that v names."""
        if obj is None or '(' not in v.local:
            return obj
        fix = []
        for x in v.local[v.local.index('(') + 1:-1].split(','):
            x = x.strip()
            fix.append(None if x == ':' else int(x) if x.isdigit() else self.as_int(self.get(x)))
        return self.section(obj, fix)

    def host_ref(self, std):
        v = self.paths[std][0]
        obj = self.slots(v)
        if isinstance(obj, list):
            return [self.pick(v, o) for o in obj]
        return self.pick(v, obj)

    def get(self, std):
        if std in self.sizes and std not in self.paths:
            return self.sizes[std]
        if std == HL and self.spec.kind in ('blocked', 'mixed'):
            return self.blksz[self.blk - 1]
        if std == 'ccpp_block_number':
            return self.blk
        if std == 'ccpp_thread_number':
            return self.thrd[0]
        if std == 'ccpp_thread_count':
            return self.thrd[1]
        if std == 'ccpp_loop_counter':
            return self.loop[0]
        if std == 'ccpp_loop_extent':
            return self.loop[1]
        c = self.host_ref(std)
        return self.omem[id(c)]

    # ------------------------------------------------------------- oracle
    def rejects(self, sc, phase):
        return False

    def expected(self, suite, stage, groups):
        for g, subs in groups:
            key = (suite.name, g, self.inst)
            calls = [(n, [x for x in sch if self.spec.schemes[x].args_of(stage)]) for n, sch in subs]
            some = any(c for _, c in calls)
            if stage == 'init' and self.up.get(key):
                continue
            if stage == 'finalize' and not self.up.get(key):
                continue
            if stage not in ('init', 'finalize') and not self.up.get(key) and some:
                self.refused = g
                return
            for n, l in calls:
                for cnt in range(1, (n if stage == 'run' else 1) + 1):
                    for x in l:
                        self.loop = (cnt, n if stage == 'run' else 1)
                        yield x
            if stage in ('init', 'finalize'):
                self.up[key] = stage == 'init'

    def plan(self, a, proc):
        std = a.std
        if std in ('ccpp_error_code', 'ccpp_error_message'):
            return ('err', None, (), None, ())
        if std in ('ccpp_loop_counter', 'ccpp_loop_extent'):
            return ('val', [self.get(std)], (), lambda o: None, {'P21'})
        props = {'P22'}
        if std not in self.paths:
            return ('val', [self.get(std)], (), lambda o: None, props)
        v = self.paths[std][0]
        if v.cond is not None and not self.active(std):
            if not a.optional:
                raise Inconclusive('an inactive variable of a required argument')
            return ('absent', None, None, None, props)
        same = a.units == v.units
        conv = (Fraction(1), Fraction(0)) if same else factor(v.units, a.units)
        inv = (Fraction(1), Fraction(0)) if same else factor(a.units, v.units)
        ref = self.host_ref(std)
        if isinstance(ref, list):
            if self.phase == 'run':
                target, shp = self.whole(ref[self.blk - 1])
            else:
                ax = [d.split(':')[-1] for d in v.dims].index(HL)
                parts = [self.whole(r) for r in ref]
                shp = list(parts[0][1])
                shp[ax] = sum(p[1][ax] for p in parts)
                target = []
                n = 1
                for x in shp:
                    n *= x
                for m in range(n):
                    idx, k = [], m
                    for ext in shp:
                        idx.append(k % ext)
                        k //= ext
                    b = 0
                    while idx[ax] >= parts[b][1][ax]:
                        idx[ax] -= parts[b][1][ax]
                        b += 1
                    o, s = 0, 1
                    for i, ext in zip(idx, parts[b][1]):
                        o += i * s
                        s *= ext
                    target.append(parts[b][0][o])
        elif isinstance(ref, Cell):
            target, shp = [ref], ()
        else:
            if ref is None:
                raise Inconclusive("oracle: no storage for %s" % std)
            sel = []
            for i, d in enumerate(v.dims):
                r = range(ref.shape[i])
                if self.phase == 'run' and self.spec.kind in ('chunked', 'mixed') and d.split(':')[-1] == H:
                    b = sum(self.blksz[:self.blk - 1])
                    r = range(b, b + self.blksz[self.blk - 1])
                sel.append(list(r))
            shp = [len(r) for r in sel]
            n = 1
            for x in shp:
                n *= x
            target = []
            for m in range(n):
                k, o, s = m, 0, 1
                for r, ext in zip(sel, ref.shape):
                    o += r[k % len(r)] * s
                    k //= len(r)
                    s *= ext
                target.append(ref.cells[o])
        vals = [lin(self.omem[id(c)], conv) for c in target]

        def wb(outs):
            for c, x in zip(target, outs):
                self.omem[id(c)] = lin(x, inv)
                if self.aborted:
                    self.dontcare.add(id(c))
        return ('val', vals, tuple(shp), wb, props)

    @staticmethod
    def whole(arr):
        if arr is None:
            raise Inconclusive('oracle: no storage')
        return arr.cells, list(arr.shape)

    # ------------------------------------------------------------- host calls
    def call(self, stage, suite, group=None, blk=1, inst=1, thrd=(1, 1), suite_arg=None, group_arg=None, bad=False):
        """One call of the static API; bad: the names have to be rejected."""
        self.phase = stage
        self.suite = next((s for s in self.spec.suites if s.name == suite), None)
        self.aborted, self.err, self.refused = False, None, None
        self.dontcare = set()
        self.reject_props = {'P21'}
        self.blk, self.inst, self.thrd, self.loop = blk, inst, thrd, (None, None)
        self.current = '%s of %s%s (instance %d)' % (stage, suite, '/' + group if group else '', inst)
        cd = self.cdata.v.f
        for n, x in (('errflg', 77), ('errmsg', 'garbage'.ljust(512)), ('loop_cnt', 99), ('loop_max', 98), ('blk_no', blk), ('chunk_no', blk), ('thrd_no', thrd[0]),
                     ('thrd_cnt', thrd[1]), ('ccpp_instance', inst)):
            cd[n].val.v = x
        self.exp = None if bad else self.expected(self.suite, stage, [g for g in self.suite.groups if group in (None, g[0])])
        sa = suite_arg or Cell('c', suite, len(suite))
        kw = dict(cdata=self.cdata, suite_name=sa, ierr=Cell('i', 76))
        ga = None
        if group or group_arg:
            ga = kw['group_name'] = group_arg or Cell('c', group, len(group))
        self.trace.append(('pcall', stage, sa.v, ga.v if ga else None, blk, inst, thrd))
        self.inside = True
        try:
            self.w.call('ccpp_static_api', 'ccpp_physics_%s' % stage, **kw)
        except Fault as f:
            self.inside = False
            self.trace.append(('fault', str(f)))
            self.fail({'P21', 'P22'}, "%s: illegal Fortran operation: %s" % (self.current, f))
        finally:
            self.inside = False
        ierr, flg, msg = kw['ierr'].v, cd['errflg'].val.v, cd['errmsg'].val.v
        self.last = (ierr, flg, msg)
        text = msg if isinstance(msg, str) else None
        ok = {'P21'}
        nxt = None if self.aborted or self.exp is None else next(self.exp, None)
        if bad or self.refused:
            self.trace.append(('retfail', None))
            why = 'accepted although %s' % ('the name is unknown' if bad else 'it is not initialised')
            self.fail(ok, "%s: %s" % (self.current, why), self.ne0(ierr))
            self.fail(ok, "%s: refused, but the error code of the ccpp_t object is zero" % self.current, self.ne0(flg))
            q = self.eq(msg, 'garbage')
            self.fail(ok, "%s: refused without a message" % self.current, (not q) if isinstance(q, bool) else z3.Not(q))
            q = self.eq(msg, '')
            self.fail(ok, "%s: refused without a message" % self.current, (not q) if isinstance(q, bool) else z3.Not(q))
            self.eng.reach('refused')
        elif self.aborted:
            code, m = self.err
            proc = m.split()[1]
            self.trace.append(('reterr', code, [m, proc]))
            self.fail(ok, "%s: error code of %s does not reach the caller" % (self.current, proc), self.eq(ierr, code))
            self.fail(ok, "%s: error code of %s is not in the ccpp_t object" % (self.current, proc), self.eq(flg, code))
            self.fail(ok, "%s: message %r does not name %s and its message %r" % (self.current, text, proc, m), text is not None and m in text and
                      proc in text.replace(m, ''))
        else:
            if nxt is not None:
                self.trace.append(('call', self.spec.schemes[nxt].proc(stage), None, None))
                self.fail(ok, "%s returned without calling %s" % (self.current, self.spec.schemes[nxt].proc(stage)))
            self.trace.append(('retok',))
            self.fail(ok, "%s: nonzero return code without an error" % self.current, self.eq(ierr, 0))
            self.fail(ok, "%s: nonzero error code without an error" % self.current, self.eq(flg, 0))
        for n, x in zip(CDATA, (blk, blk, thrd[0], thrd[1], inst)):
            self.fail({'P22'}, '%s: component %s of the ccpp_t object changed' % (self.current, n), self.eq(cd[n].val.v, x))
        self.exp = None
        self.check_memory('ok')
        self.eng.reach('phase call')

    @staticmethod
    def ne0(x):
        return x != 0 if x is not UNDEF else False


class PReplay(Replay):
    def vtype(self, lhs):
        return self.types.get(re.sub(r'\([^()]*\)', '', lhs).lower())

    def driver(self, unalloc=()):
        s = self.spec
        self.types = {}
        for v in s.hosts:
            self.types[v.base.lower()] = v
        for t, inst, vs in s.ddts:
            for v in vs:
                self.types[('%s%%%s' % (inst, v.base)).lower()] = v
        for n, vs in (('blk', s.blocks), ('thr', s.threaded)):
            for v in vs:
                self.types['%s%%%s' % (n, v.base.lower())] = v
        body = []

        def off(lhs):
            return re.sub(r'\([^()]*\)$', '', lhs).lower() in unalloc
        for e in self.f['hostset']:
            if e[0] == 'raw':
                body.append('  ' + e[1])
            elif e[0] == 'alloc':
                if e[1].lower() not in unalloc:
                    body.append('  allocate(%s(%s))' % (e[1], ','.join('%d:%d' % (lo, lo + n - 1) for lo, n in e[2])))
            elif e[0] == 'set':
                if not off(e[1]):
                    body.append('  %s = %s' % (e[1], lit(e[2], self.vtype(e[1]).type)))
        self.off = off
        for e in self.f['trace']:
            if e[0] == 'pcall':
                body.append("  write(*,'(a)') 'PHASE ccpp_physics_%s'" % e[1])
                body.append("  cdata%%errflg = 77; cdata%%errmsg = 'garbage'; cdata%%loop_cnt = 99; cdata%%loop_max = 98; cdata%%blk_no = %d; cdata%%chunk_no = %d" % (e[4], e[4]))
                body.append('  cdata%%thrd_no = %d; cdata%%thrd_cnt = %d; cdata%%ccpp_instance = %d' % (e[6][0], e[6][1], e[5]))
                a = ['cdata', 'suite_name=' + lit(e[2], 'character')] + (['group_name=' + lit(e[3], 'character')] if e[3] is not None else []) + ['ierr=ierr']
                body.append('  call ccpp_physics_%s(%s)' % (e[1], ', '.join(a)))
                body.append("  write(*,'(a,i0,a,i0,a,a,a)') 'RET ', ierr, ' ', cdata%errflg, ' [', trim(cdata%errmsg), ']'")
            elif e[0] == 'mem':
                for lhs, val in e[1]:
                    if not off(lhs):
                        body.append('  ' + logcall(self.vtype(lhs).type, lhs, lhs, 0))
        body.append("  write(*,'(a)') 'DONE'")
        return ['program vt_main', '  use ccpp_kinds', '  use vt_log', '  use ccpp_types', '  use data', '  use ccpp_static_api', '  implicit none',
                '  type(ccpp_t) :: cdata', '  integer :: ierr'] + body + ['end program vt_main']

    def expected(self, unalloc=()):
        out = []
        procs = {s.proc(p): (s, p) for s in self.spec.schemes.values() for p in s.entries}
        for e in self.f['trace']:
            if e[0] == 'pcall':
                out.append(('PHASE', 'ccpp_physics_' + e[1]))
            elif e[0] == 'call':
                out.append(('CALL', e[1]))
                if e[2] is None:
                    continue
                s, p = procs[e[1]]
                byname = {a.local: a for a in s.args(p)}
                for n, kind, vals, shp in e[2]:
                    a = byname[n]
                    if kind in ('err', 'any'):
                        continue
                    if kind == 'absent':
                        out.append(('ABSENT', n))
                        continue
                    if a.dims:
                        out.append(('SHAPE', n, tuple(shp)))
                    if a.intent != 'out':
                        out.append(('VAL', n, a.type, vals))
            elif e[0] in ('retok', 'reterr', 'retfail'):
                out.append((e[0].upper(),) + tuple(e[1:]))
            elif e[0] == 'mem':
                for lhs, val in e[1]:
                    if not self.off(lhs):
                        out.append(('VAL', lhs, self.vtype(lhs).type, [val]))
            elif e[0] == 'noscheme':
                out.append(('NOCALL',))
            elif e[0] == 'fault':
                out.append(('NOFAULT',))
        return out

    def returned(self, e, l):
        """Difference of a RET line from the expectation, or None."""
        m = re.match(r'^RET (-?\d+) (-?\d+) \[(.*)\]$', l)
        if not m:
            return 'expected the return of the call, got: %s' % l
        a, b, t = int(m.group(1)), int(m.group(2)), m.group(3)
        if e[0] == 'RETOK' and (a or b):
            return 'expected return code 0, got: %s' % l
        if e[0] == 'RETFAIL' and (not a or not b or not t.strip() or t.strip() == 'garbage'):
            return 'expected a refused call with a message, got: %s' % l
        if e[0] == 'RETERR' and (a != int(e[1]) or b != int(e[1]) or e[2][0] not in t or e[2][1] not in t.replace(e[2][0], '')):
            return 'expected error code %s and a message with %s, got: %s' % (e[1], e[2], l)
        return None

    def compare(self, exp, text, rc):
        """Splits at the RET lines, which are compared here; the rest as for capgen."""
        lines = text.splitlines()
        i, todo, full = 0, [], self.full
        for e in exp:
            if not e[0].startswith('RET'):
                todo.append(e)
                continue
            j = next((k for k in range(i, len(lines)) if lines[k].startswith('RET ')), len(lines))
            self.full = False
            d = Replay.compare(self, todo + [('CALL', 'VT_END')], '\n'.join(lines[i:j] + ['CALL VT_END'] if j < len(lines) else lines[i:]), rc)
            self.full = full
            if d:
                return d
            if j == len(lines):
                return 'abnormal end (exit status %s): %s' % (rc, text[-600:])
            d = self.returned(e, lines[j])
            if d:
                return d
            i, todo = j + 1, []
        return Replay.compare(self, todo, '\n'.join(lines[i:]), rc)

    def bundle(self):
        t = Replay.bundle(self)
        return t.replace('ccpp_capgen.py', 'ccpp_prebuild.py').replace('capgen.log', 'prebuild.log')


TOOLS = (PBuilt, PRun, PReplay)
