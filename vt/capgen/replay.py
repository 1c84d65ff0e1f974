"""Concrete replay of a symbolic run: the generated cap compiled by gfortran with recording stub schemes."""
import os
import re
import shutil
import z3
from fractions import Fraction
from ..engine import pyval
from ..fort.interp import SymC, UNDEF, is_char, chars
from .harness import sh, FC
from ..runner import REPO
from .spec import V


class Concretizer:
    """Values of a trace under a model."""
    def __init__(self, model):
        self.m = model

    def __call__(self, v):
        if v is None or v is UNDEF:
            return None
        if isinstance(v, (str, int, bool, Fraction, float)):
            return v
        if is_char(v):
            o = ''
            for c in chars(v):
                if isinstance(c, str):
                    o += c
                else:
                    x = self(c if isinstance(c, z3.ExprRef) else getattr(c, 'e', c))
                    o += x if isinstance(x, str) else chr(x)
            return o
        if isinstance(v, z3.ExprRef):
            return pyval(self.m.eval(v, model_completion=True))
        if isinstance(v, (list, tuple)):
            return type(v)(self(x) for x in v)
        if isinstance(v, dict):
            return {k: self(x) for k, x in v.items()}
        return repr(v)


def freeze(run, model):
    """Picklable concrete version of a run's trace and host settings."""
    c = Concretizer(model)
    return dict(hostset=[c(x) for x in run.hostset], trace=[freeze_event(c, e) for e in run.trace])


def freeze_event(c, e):
    if e[0] == 'call':
        args = None if e[2] is None else [(n, k, c(v) if k == 'val' else None, s) for n, k, v, s in e[2]]
        outs = None if e[3] is None else [(n, s, [(a, b, c(o)) for a, b, o in v] if s == 'ddt' else c(list(v))) for n, s, v in e[3]]
        return ('call', e[1], args, outs)
    if e[0] == 'phase':
        return ('phase', e[1], [(n, k, c(v)) for n, k, v in e[2]], tuple(c(x) for x in e[3]))
    if e[0] == 'query':
        return ('query', e[1], [(n, k, c(v)) for n, k, v in e[2]], e[3], e[4], e[5])
    return c(e)


# ------------------------------------------------------------------ literals
def lit(v, typ, clen=None):
    if typ == 'character' or isinstance(v, str):
        return "'" + str(v).replace("'", "''") + "'"
    if typ == 'logical' or isinstance(v, bool):
        return '.true.' if v else '.false.'
    if typ == 'integer':
        return '%d' % int(v) if v is not None else '-1'
    if v is None:
        return '-777.0d0'
    return ('%.17e' % float(v)).replace('e', 'd')


LOG = '''module vt_log
  implicit none
  integer :: vt_k = -1
contains
  subroutine vt_begin(nm)
    character(len=*), intent(in) :: nm
    vt_k = vt_k + 1
    write(*,'(a)') 'CALL '//nm
  end subroutine
  subroutine vt_shape(nm, shp)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: shp(:)
    write(*,'(a,a,a,99(1x,i0))') 'SHAPE ', nm, ' :', shp
  end subroutine
  subroutine vt_absent(nm)
    character(len=*), intent(in) :: nm
    write(*,'(a)') 'ABSENT '//nm
  end subroutine
  subroutine vt_r(nm, v)
    character(len=*), intent(in) :: nm
    real(8), intent(in) :: v(:)
    write(*,'(a,a,a,999(1x,es25.16e3))') 'REAL ', nm, ' :', v
  end subroutine
  subroutine vt_i(nm, v)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: v(:)
    write(*,'(a,a,a,999(1x,i0))') 'INT ', nm, ' :', v
  end subroutine
  subroutine vt_l(nm, v)
    character(len=*), intent(in) :: nm
    logical, intent(in) :: v(:)
    write(*,'(a,a,a,999(1x,l1))') 'LOG ', nm, ' :', v
  end subroutine
  subroutine vt_c(nm, v)
    character(len=*), intent(in) :: nm
    character(len=*), intent(in) :: v
    write(*,'(a)') 'CHAR '//nm//' : ['//trim(v)//']'
  end subroutine
end module vt_log
'''


def logcall(typ, name, expr, rank):
    if typ == 'real':
        return "call vt_r('%s', %s)" % (name, 'reshape(real(%s,8),[size(%s)])' % (expr, expr) if rank else '[real(%s,8)]' % expr)
    if typ == 'integer':
        return "call vt_i('%s', %s)" % (name, 'reshape(int(%s),[size(%s)])' % (expr, expr) if rank else '[int(%s)]' % expr)
    if typ == 'logical':
        return "call vt_l('%s', %s)" % (name, 'reshape(%s,[size(%s)])' % (expr, expr) if rank else '[%s]' % expr)
    return "call vt_c('%s', %s)" % (name, expr)


def ddt_leaves(spec, tname, pre=''):
    for v in spec.ddts[tname][0].vars:
        if v.noemit or '(' in v.local:
            continue
        if v.isddt:
            for x in ddt_leaves(spec, v.type, pre + v.base + '%'):
                yield x
        else:
            yield v, pre + v.base


class Replay:
    def __init__(self, built, frozen, dirn):
        self.b = built
        self.spec = built.spec
        self.f = frozen
        self.dir = dirn

    # -------------------------------------------------------- sources
    def body(self, calls):
        spec = self.spec

        def mk(s, p, args):
            proc = s.proc(p)
            o = ["    call vt_begin('%s')" % proc]
            for a in args:
                if a.std in ('ccpp_error_code', 'ccpp_error_message') or a.type == 'ccpp_constituent_properties_t':
                    continue
                pad = '    '
                if a.optional:
                    o.append('    if (.not. present(%s)) then' % a.local)
                    o.append("      call vt_absent('%s')" % a.local)
                    o.append('    else')
                    pad = '      '
                if a.isddt:
                    for v, nm in ddt_leaves(spec, a.type):
                        x = '%s%%%s' % (a.local, nm)
                        g = ''
                        if (v.dims and not v.fdims) or v.falloc:
                            g = 'if (allocated(%s)) ' % x
                        if v.dims:
                            o.append(pad + g + "call vt_shape('%s', shape(%s))" % (x, x))
                        o.append(pad + g + logcall(v.type, x, x, len(v.dims)))
                else:
                    if a.dims:
                        o.append(pad + "call vt_shape('%s', shape(%s))" % (a.local, a.local))
                    if a.intent != 'out':
                        o.append(pad + logcall(a.type, a.local, a.local, len(a.dims)))
                if a.optional:
                    o.append('    end if')
            for a in args:
                if a.std == 'ccpp_error_code':
                    o.append('    %s = 0' % a.local)
                elif a.std == 'ccpp_error_message':
                    o.append("    %s = ''" % a.local)
            o.append('    select case (vt_k)')
            byname = {a.local: a for a in args}
            for k, ev in enumerate(calls):
                if ev[1] != proc or ev[3] is None:
                    continue
                o.append('    case (%d)' % k)
                for n, shp, vals in ev[3]:
                    a = byname[n]
                    opt = 'if (present(%s)) ' % n if a.optional else ''
                    if shp == 'ddt':
                        for nm, s2, vs in vals:
                            x = '%s%%%s' % (n, nm)
                            typ = next(v.type for v, q in ddt_leaves(spec, a.type) if q == nm)
                            self.assign(o, x, typ, s2, vs, '')
                    else:
                        self.assign(o, n, a.type, shp, vals, opt)
            o.append('    end select')
            return o
        return mk

    @staticmethod
    def assign(o, x, typ, shp, vals, opt):
        if shp:
            if not vals:
                return
            if opt:
                o.append('      ' + opt + 'then')
            o.append('      if (size(%s) == %d) %s = reshape([%s], shape(%s))' %
                     (x, len(vals), x, ', '.join(lit(v, typ) for v in vals), x))
            if opt:
                o.append('      end if')
        else:
            o.append('      %s%s = %s' % (opt, x, lit(vals[0], typ)))

    def vtype(self, lhs):
        """Metadata variable behind a Fortran expression of the driver."""
        return self.types.get(lhs.split('(')[0].lower())

    def driver(self, unalloc=()):
        spec = self.spec
        uses = ['  use ccpp_kinds', '  use vt_log', '  use %s_ccpp_cap' % spec.host]
        for m in spec.mods:
            uses.append('  use %s' % m.name)
        for d, (dd, mn) in spec.ddts.items():
            if all(mn != m.name for m in spec.mods):
                uses.append('  use %s, only: %s' % (mn, d))
        decl = []
        body = []
        nq = 0
        self.types = {}

        def scan(v, lhs):
            if v.isddt:
                if v.type in spec.ddts:
                    for c in spec.ddts[v.type][0].vars:
                        scan(c, lhs + '%' + c.base)
            else:
                self.types[lhs.lower()] = v
        for m in spec.mods:
            for v in (m.vars or ()):
                if not v.noemit and '(' not in v.local:
                    scan(v, v.base)
        for v in spec.host_vars:
            scan(v, 'ctl_' + v.local)
        begend = {}
        for v in spec.host_vars:
            if v.std in ('ccpp_error_code', 'ccpp_error_message', 'horizontal_loop_begin', 'horizontal_loop_end'):
                decl.append('  %s :: ctl_%s' % (v.ftype(), v.local))
                begend[v.std] = 'ctl_' + v.local
        flg, msg = begend['ccpp_error_code'], begend['ccpp_error_message']
        for e in self.f['hostset']:
            if e[0] == 'decl':
                decl.append('  %s%s :: %s' % (e[1], (', allocatable, dimension(%s)' % ','.join([':'] * len(e[3]))) if e[3] else '', e[2]))
            elif e[0] == 'alloc':
                if e[1].lower() in unalloc:
                    continue
                if not e[3]:
                    body.append('  allocate(%s(%s))' % (e[1], ','.join('%d:%d' % (lo, lo + n - 1) for lo, n in e[2])))
            elif e[0] == 'set':
                v = self.vtype(e[1])
                if v is None or e[1].split('(')[0].lower() in unalloc:
                    continue
                body.append('  %s = %s' % (e[1], lit(e[2], v.type)))
        for e in self.f['trace']:
            if e[0] == 'phase':
                body.append("  write(*,'(a)') 'PHASE %s'" % e[1])
                body.append('  %s = 77' % flg)
                body.append("  %s = 'garbage'" % msg)
                if 'horizontal_loop_begin' in begend:
                    body.append('  %s = %d' % (begend['horizontal_loop_begin'], 1 if e[3][0] is None else e[3][0]))
                    body.append('  %s = %d' % (begend['horizontal_loop_end'], 1 if e[3][1] is None else e[3][1]))
                a = []
                for d, k, val in e[2]:
                    a.append('%s=%s' % (d, lit(val, 'character') if k == 'str' else 'ctl_' + d))
                body.append('  call %s(%s)' % (e[1], ', '.join(a)))
                body.append("  write(*,'(a,i0,a,a,a)') 'RET ', %s, ' [', trim(%s), ']'" % (flg, msg))
            elif e[0] == 'query':
                nq += 1
                if nq == 1:
                    decl.append('  character(len=64), allocatable :: vt_list(:)')
                    decl.append('  integer :: vt_n, vt_flg')
                    decl.append('  character(len=512) :: vt_msg')
                body.append("  vt_flg = 0")
                body.append("  vt_msg = ''")
                a = []
                for d, k, val in e[2]:
                    a.append('%s=%s' % (d, {'str': lambda: lit(val, 'character'), 'log': lambda: lit(val, 'logical'), 'list': lambda: 'vt_list',
                                            'flg': lambda: 'vt_flg', 'msg': lambda: 'vt_msg'}[k]()))
                body.append("  write(*,'(a)') 'QUERY %s'" % e[1])
                body.append("  if (allocated(vt_list)) deallocate(vt_list)")
                body.append('  call %s(%s)' % (e[1], ', '.join(a)))
                body.append("  write(*,'(a,i0,a,a,a)') 'RET ', vt_flg, ' [', trim(vt_msg), ']'")
                body.append("  if (allocated(vt_list)) then")
                body.append("    do vt_n = 1, size(vt_list)")
                body.append("      write(*,'(a,a)') 'ENTRY ', trim(vt_list(vt_n))")
                body.append("    end do")
                body.append("  end if")
                body.append("  write(*,'(a)') 'ENDLIST'")
            elif e[0] == 'mem':
                for lhs, val in e[1]:
                    v = self.vtype(lhs)
                    if v is None or lhs.split('(')[0].lower() in unalloc:
                        continue
                    body.append('  ' + logcall(v.type, lhs, lhs, 0))
        body.append("  write(*,'(a)') 'DONE'")
        return ['program vt_main'] + uses + ['  implicit none'] + decl + body + ['end program vt_main']

    # -------------------------------------------------------- expected transcript
    def expected(self, unalloc=()):
        out = []
        spec = self.spec
        procs = {s.proc(p): (s, p) for s in spec.schemes.values() for p in s.entries}
        for e in self.f['trace']:
            if e[0] == 'phase':
                out.append(('PHASE', e[1]))
            elif e[0] == 'call':
                out.append(('CALL', e[1]))
                if e[2] is None:
                    continue
                s, p = procs[e[1]]
                byname = {a.local: a for a in s.args(p)}
                for n, kind, vals, shp in e[2]:
                    a = byname[n]
                    if kind in ('err', 'any'):
                        continue
                    if kind == 'absent':
                        out.append(('ABSENT', n))
                        continue
                    if kind == 'ddt':
                        out.append(('DDT', n))
                        continue
                    if a.dims:
                        out.append(('SHAPE', n, tuple(shp)))
                    if a.intent != 'out':
                        out.append(('VAL', n, a.type, vals))
            elif e[0] == 'ret':
                out.append(('RET', e[1], e[2]))
            elif e[0] == 'retfail':
                out.append(('RETFAIL', e[1]))
            elif e[0] == 'query':
                out.append(('QUERY', e[1], e[3], e[5]))
            elif e[0] == 'mem':
                for lhs, val in e[1]:
                    v = self.vtype(lhs)
                    if v is None or lhs.split('(')[0].lower() in unalloc:
                        continue
                    out.append(('VAL', lhs, v.type, [val]))
            elif e[0] == 'noscheme':
                out.append(('NOCALL',))
            elif e[0] == 'fault':
                out.append(('NOFAULT',))
        return out

    # -------------------------------------------------------- comparison
    def compare(self, exp, text, rc):
        """None if the transcript agrees with the expectation, else a description of the first difference."""
        lines = [l for l in text.splitlines() if re.match(r'^(CALL|PHASE|SHAPE|ABSENT|REAL|INT|LOG|CHAR|RET|DONE|QUERY|ENTRY|ENDLIST)\b', l)]
        i = 0

        def nxt():
            nonlocal i
            l = lines[i] if i < len(lines) else '<end of output, exit status %s: %s>' % (rc, text[-400:].strip())
            i += 1
            return l
        for e in exp:
            if e[0] == 'DDT':
                while i < len(lines) and re.match(r'^(SHAPE|REAL|INT|LOG|CHAR) %s%%' % re.escape(e[1]), lines[i]):
                    i += 1
                continue
            if e[0] == 'NOCALL':
                l = lines[i] if i < len(lines) else ''
                if l.startswith('CALL'):
                    return "unexpected %s" % l
                continue
            if e[0] == 'NOFAULT':
                if rc != 0:
                    return "abnormal end (exit status %s): %s" % (rc, text[-600:])
                continue
            l = nxt()
            if e[0] == 'QUERY':
                if l.strip() != 'QUERY %s' % e[1]:
                    return "expected query of %s, got: %s" % (e[1], l)
                m = re.match(r'^RET (-?\d+) \[(.*)\]$', nxt())
                ent = []
                while True:
                    l = nxt()
                    if not l.startswith('ENTRY'):
                        break
                    ent.append(l[6:].rstrip())
                if l.strip() != 'ENDLIST' or not m:
                    return "query of %s ends abnormally: %s" % (e[1], l)
                if e[2] is None:
                    if int(m.group(1)) == 0 or not m.group(2).strip():
                        return "query of %s with a bad name not rejected" % e[1]
                    continue
                must, may = e[2]
                if int(m.group(1)) != 0 or m.group(2).strip():
                    return "query of %s returns error %s [%s]" % (e[1], m.group(1), m.group(2))
                if len(set(ent)) != len(ent) or set(must) - set(ent) or set(ent) - set(must) - set(may) or e[3] and ent != list(must):
                    return "query of %s returns %s; expected %s (optionally also %s)" % (e[1], ent, must, may)
                continue
            if e[0] in ('PHASE', 'CALL', 'ABSENT'):
                if l.strip() != '%s %s' % (e[0], e[1]):
                    return "expected %s %s, got: %s" % (e[0], e[1], l)
            elif e[0] == 'SHAPE':
                if l.split() != ['SHAPE', e[1], ':'] + [str(x) for x in e[2]]:
                    return "expected shape %s of %s, got: %s" % (e[2], e[1], l)
            elif e[0] == 'RET':
                m = re.match(r'^RET (-?\d+) \[(.*)\]$', l)
                if not m:
                    return "expected the return of the phase call, got: %s" % l
                if int(m.group(1)) != int(e[1]) or m.group(2).rstrip() != str(e[2]).rstrip():
                    return "expected error code %s and message [%s], got: %s" % (e[1], e[2], l)
            elif e[0] == 'RETFAIL':
                m = re.match(r'^RET (-?\d+) \[(.*)\]$', l)
                if not m:
                    return "expected a rejected call, got: %s" % l
                if int(m.group(1)) == 0 or not m.group(2).strip() or (e[1] and e[1].strip() not in m.group(2)):
                    return "expected a nonzero error code and a message%s, got: %s" % (' with "%s"' % e[1] if e[1] else '', l)
            elif e[0] == 'VAL':
                m = re.match(r'^(REAL|INT|LOG|CHAR) (.*?) :(.*)$', l)
                if not m or m.group(2) != e[1]:
                    return "expected the value of %s, got: %s" % (e[1], l)
                if not self.same(e[2], e[3], m.group(3)):
                    return "expected %s = %s, got: %s" % (e[1], [float(x) if isinstance(x, Fraction) else x for x in e[3]], l)
        if not exp or exp[-1][0] in ('RET', 'VAL', 'RETFAIL', 'QUERY') and self.full:
            if rc != 0 or nxt() != 'DONE':
                return "abnormal end (exit status %s): %s" % (rc, text[-600:])
        return None

    @staticmethod
    def same(typ, vals, txt):
        if typ == 'character':
            v = vals[0]
            return v is None or txt.strip() == '[%s]' % str(v).rstrip()
        toks = txt.split()
        if len(toks) != len(vals):
            return False
        for t, v in zip(toks, vals):
            if v is None:
                continue
            if typ == 'real':
                try:
                    x = float(t)
                except ValueError:
                    return False
                v = float(v)
                if not abs(x - v) <= 1e-5 + 1e-6 * max(abs(x), abs(v)):
                    return False
            elif typ == 'integer':
                if int(t) != int(v):
                    return False
            elif typ == 'logical':
                if (t == 'T') != bool(v):
                    return False
        return True

    # -------------------------------------------------------- run
    def run(self, full=False, unalloc=()):
        """(difference or None, transcript); raises RuntimeError if the driver does not compile."""
        self.full = full
        spec = self.spec
        os.makedirs(self.dir, exist_ok=True)
        calls = [e for e in self.f['trace'] if e[0] == 'call']
        with open(os.path.join(self.dir, 'vt_log.F90'), 'w') as f:
            f.write(LOG)
        mk = self.body(calls)
        for n in spec.scheme_order:
            s = spec.schemes[n]
            lines = spec.scheme_f90(s, mk)
            lines.insert(1, '  use vt_log')
            with open(os.path.join(self.dir, s.module + '.F90'), 'w') as f:
                f.write('\n'.join(lines) + '\n')
        with open(os.path.join(self.dir, 'vt_main.F90'), 'w') as f:
            f.write('\n'.join(self.driver(unalloc)) + '\n')
        files = ['vt_log.F90']
        mods = {spec.schemes[n].module + '.F90' for n in spec.scheme_order}
        for x in self.b.files():
            files.append(x if x in mods else x if x.startswith('/') else os.path.join(self.b.dir, x))
        # ccpp_kinds has to precede the log module's users only; vt_log has no dependencies
        self.files = files + ['vt_main.F90']
        exe = os.path.join(self.dir, 'vt_main')
        rc, txt = sh(FC + ['-finit-integer=-99999', '-finit-real=snan', '-finit-logical=true'] + self.files + ['-o', exe], self.dir)
        if rc != 0:
            raise RuntimeError('replay driver does not compile: ' + txt[-1500:])
        rc, txt = sh(['timeout', '20', exe], self.dir, env=dict(os.environ, MALLOC_PERTURB_='165'))
        self.text = txt
        return self.compare(self.expected(unalloc), txt, rc), txt

    def bundle(self):
        """Self-contained shell script that rebuilds and runs the replay."""
        o = ['#!/bin/bash', '# replay: regenerates the caps from /repo, compiles them with recording stub schemes, prints the transcript',
             'set -e', 'D=$(mktemp -d)', 'trap \'rm -rf "$D"\' EXIT', 'cd "$D"']
        self.spec.emit(self.dir + '_emit')

        def add(path, name):
            with open(path, errors='replace') as f:
                t = f.read()
            o.append("cat > %s <<'VT_EOF'\n%s\nVT_EOF" % (name, t.rstrip('\n')))
        em = self.dir + '_emit'
        for fn in sorted(os.listdir(em)):
            if os.path.isdir(os.path.join(em, fn)):
                o.append('mkdir ' + fn)
                continue
            add(os.path.join(em, fn), fn)
        c = self.b.cmd()
        c[1] = c[1].replace(REPO, '/repo')
        o.append(' '.join(c) + ' > capgen.log 2>&1 || { cat capgen.log; exit 1; }')
        for fn in sorted(os.listdir(self.dir)):
            if fn.endswith('.F90'):
                add(os.path.join(self.dir, fn), fn)
        fl = [os.path.relpath(x, self.b.dir) if x.startswith(self.b.dir) else x for x in self.files]
        o.append(' '.join(FC + ['-finit-integer=-99999', '-finit-real=snan', '-finit-logical=true'] + fl) + ' -o vt_main')
        o.append('MALLOC_PERTURB_=165 ./vt_main || true')
        shutil.rmtree(em, ignore_errors=True)
        return '\n'.join(o) + '\n'
