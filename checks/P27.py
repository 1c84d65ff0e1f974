"""P27: the constituent interface capgen generates (scripts/constituents.py, host_cap.py) on top of the registry."""
from concurrent.futures import ThreadPoolExecutor
import itertools
import os
import subprocess
from fractions import Fraction
import z3
from vt.runner import Check, explore_job, run_jobs, gfortran, run_exe, REPO
from vt.fort.interp import Program, World, SymC, Fault, Stop, UNDEF, is_sym, chars
from vt.capgen.harness import PY
from checks.P19 import Obj, SRC, SLEN, UNSET, HUGE_R, LAYER, SENT, sval, zreal
import checks.P19 as P19

NC, NL, NK = 2, 1, 5            # columns, layers, slots of the host's copy
NH, ND, NF = 2, 4, 2            # host constituents, dynamic constituents, failing routines
PH = {'register': 'register', 'init': 'initialize', 'ts_init': 'timestep_initial', 'run': 'run', 'ts_final': 'timestep_final', 'final': 'finalize'}
SUF = {'register': 'register', 'init': 'init', 'ts_init': 'timestep_init', 'run': 'run', 'ts_final': 'timestep_final', 'final': 'finalize'}
TEXTS = ('hn', 'hu', 'dn', 'qn')
INPUTS = [('hn(%d)' % NH, 'character(len=%d)' % SLEN), ('hu(%d)' % NH, 'character(len=%d)' % SLEN), ('dn(%d)' % ND, 'character(len=%d)' % SLEN), ('qn', 'character(len=%d)' % SLEN),
          ('ha(%d)' % NH, 'logical'), ('da(%d)' % ND, 'logical'), ('hd(%d)' % NH, 'real(kind_phys)'), ('dd(%d)' % ND, 'real(kind_phys)'), ('fl(%d)' % NF, 'integer'),
          ('qa', 'logical'), ('fv(%d,%d,%d)' % (NC, NL, NK), 'real(kind_phys)'), ('gv(%d,%d,%d)' % (NC, NL, NK), 'real(kind_phys)'), ('e0', 'integer')]


# ---------------------------------------------------------------- scenario text
class Layout:
    """suites: [(name, [(part, [scheme])])]; schemes: {name: {phase: [arg]}}; arg: tuple
      ('c', std, intent, opts)  a constituent;  ('t', std) its tendency;  ('all',), ('alltend',) all of them;
      ('dyn', first, last)      dynamic constituents dn(first..last) (register);  ('fail', k) error code fl(k)"""
    def __init__(self, suites, schemes, host='h', same=False):
        self.suites, self.schemes, self.host, self.same = suites, schemes, host, same

    def key(self):
        return repr((self.suites, sorted(self.schemes.items()), self.host, self.same))

    ERR = ("[ errmsg ]\n standard_name = ccpp_error_message\n units = none\n dimensions = ()\n type = character | kind = len=512\n intent = %(i)s\n"
           "[ errflg ]\n standard_name = ccpp_error_code\n units = 1\n dimensions = ()\n type = integer\n intent = %(i)s\n")

    def emit(self, d):
        f = {}
        v = lambda n, s, u, dim, typ, extra='': '[ %s ]\n standard_name = %s\n units = %s\n dimensions = (%s)\n type = %s\n%s' % (n, s, u, dim, typ, extra)
        R = 'real | kind = kind_phys'
        f['vt_host.meta'] = ("[ccpp-table-properties]\n name = vt_host\n type = module\n[ccpp-arg-table]\n name = vt_host\n type = module\n" +
                             v('ncols', 'horizontal_dimension', 'count', '', 'integer', ' protected = True\n') + v('pver', 'vertical_layer_dimension', 'count', '', 'integer', ' protected = True\n') +
                             v('hv', 'host_field', 'kg kg-1', 'horizontal_dimension, vertical_layer_dimension', R))
        f['vt_host.F90'] = ("module vt_host\n use ccpp_kinds\n implicit none\n!> \\section arg_table_vt_host  Argument Table\n!! \\htmlinclude arg_table_vt_host.html\n!!\n"
                            " integer, protected :: ncols = %d\n integer, protected :: pver = %d\n real(kind_phys) :: hv(%d,%d) = 0.0_kind_phys\nend module vt_host\n" % (NC, NL, NC, NL))
        f['vt_ctl.meta'] = ("[ccpp-table-properties]\n name = %s\n type = host\n[ccpp-arg-table]\n name = %s\n type = host\n" % (self.host, self.host) +
                            v('col_start', 'horizontal_loop_begin', 'count', '', 'integer') + v('col_end', 'horizontal_loop_end', 'count', '', 'integer') +
                            v('errmsg', 'ccpp_error_message', 'none', '', 'character | kind = len=512') + v('errflg', 'ccpp_error_code', '1', '', 'integer'))
        f['vt_ctl.F90'] = ("module vt_ctl\n implicit none\ncontains\n!> \\section arg_table_%s  Argument Table\n!! \\htmlinclude arg_table_%s.html\n!!\n"
                            " subroutine %s(col_start, col_end, errmsg, errflg)\n  integer, intent(in) :: col_start, col_end\n  character(len=512), intent(out) :: errmsg\n  integer, intent(out) :: errflg\n"
                            "  errmsg = ''\n  errflg = 0\n end subroutine %s\nend module vt_ctl\n" % ((self.host,) * 4))
        names = []
        self.order = []
        for s, phases in self.schemes.items():
            M = ["[ccpp-table-properties]\n name = %s\n type = scheme\n" % s]
            F = ["module %s\n use ccpp_kinds\n implicit none\n private\n" % s] + [" public :: %s_%s\n" % (s, SUF[p]) for p in phases] + ["contains\n"]
            for p, args in phases.items():
                m, decl, lst, body, uses = [], [], [], [], []
                hd = 'horizontal_loop_extent' if p == 'run' else 'horizontal_dimension'
                lst = []
                if p == 'run' and any(a[0] == 'c' and 'units' in (a[3] if len(a) > 3 else {}) for a in args):
                    for n, std in (('ncol', hd), ('nlev', 'vertical_layer_dimension')):
                        m.append(v(n, std, 'count', '', 'integer', ' intent = in\n'))
                        decl.append(' integer, intent(in) :: ' + n)
                        lst.append(n)

                def tohost():
                    if 'hv' not in lst:
                        lst.append('hv')
                        m.append(v('hv', 'host_field', 'kg kg-1', hd + ', vertical_layer_dimension', R, ' intent = inout\n'))
                        decl.append(' real(kind_phys), intent(inout) :: hv(:,:)')
                for k, a in enumerate(args):
                    K = const(s, p, k)
                    n = '%s%d' % (a[0], k) if self.same else '%s%d_%s%s' % (a[0], k, s, p[0])
                    if a[0] == 'c':
                        o = a[3] if len(a) > 3 else {}
                        m.append(v(n, a[1], o.get('units', 'kg kg-1'), hd + ', vertical_layer_dimension', R,
                                   ' intent = %s\n' % a[2] + (' advected = .true.\n' if o.get('adv') else '' if o.get('plain') else ' constituent = .true.\n') +
                                   (' default_value = %s\n' % o['dv'] if 'dv' in o else '') + (' long_name = %s\n' % o['long'] if 'long' in o else '')))
                        decl.append(' real(kind_phys), intent(%s) :: %s(:,:)' % (a[2], n))
                        lst.append(n)
                        if a[2] == 'in':
                            tohost()
                            body.append(' hv = hv + %d*%s' % (K, n))
                        elif a[2] == 'out':
                            body.append(' %s = %d' % (n, K))
                        else:
                            body.append(' %s = 2*%s + %d' % (n, n, K))
                    elif a[0] == 't':
                        o = a[2] if len(a) > 2 else {}
                        m.append(v(n, 'tendency_of_' + a[1], o.get('units', 'kg kg-1 s-1'), hd + ', vertical_layer_dimension', R, ' intent = inout\n constituent = True\n'))
                        decl.append(' real(kind_phys), intent(inout) :: %s(:,:)' % n)
                        lst.append(n)
                        body.append(' %s = %s + %d' % (n, n, K))
                    elif a[0] in ('all', 'alltend'):
                        m.append(v(n, 'ccpp_constituents' if a[0] == 'all' else 'ccpp_constituent_tendencies', 'none',
                                   hd + ', vertical_layer_dimension, number_of_ccpp_constituents', R, ' intent = inout\n'))
                        decl.append(' real(kind_phys), intent(inout) :: %s(:,:,:)' % n)
                        lst.append(n)
                        if a[0] == 'all':
                            body.append(' %s = %s + %d' % (n, n, K))
                        else:
                            al = [x for x in lst if x.startswith('all') and x[3].isdigit()][0]
                            body += [' %s = %s + %s' % (al, al, n), ' %s = 0' % n]
                    elif a[0] == 'dyn':
                        m.append("[ %s ]\n standard_name = dynamic_constituents_for_%s_%d\n dimensions = (:)\n type = ccpp_constituent_properties_t\n intent = out\n allocatable = true\n" % (n, s, k))
                        uses.append(' use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t\n use vt_in\n')
                        decl.append(' type(ccpp_constituent_properties_t), allocatable, intent(out) :: %s(:)' % n)
                        lst.append(n)
                        body.append(' allocate(%s(%d))' % (n, a[2] - a[1] + 1))
                        for j in range(a[1], a[2] + 1):
                            body.append(" if (errflg == 0) call %s(%d)%%instantiate(trim(dn(%d)), 'dynamic', 'kg kg-1', '%s', advected=da(%d), default_value=dd(%d), errcode=errflg, errmsg=errmsg)" %
                                        (n, j - a[1] + 1, j, LAYER, j, j))
                    elif a[0] == 'fail':
                        uses.append(' use vt_in\n')
                        body.append(" if (fl(%d) /= 0) then\n  errflg = fl(%d)\n  errmsg = 'failed'\n end if" % (a[1], a[1]))
                m.append(self.ERR % dict(i='out'))
                lst += ['errmsg', 'errflg']
                decl += [' character(len=512), intent(out) :: errmsg', ' integer, intent(out) :: errflg']
                M.append("[ccpp-arg-table]\n name = %s_%s\n type = scheme\n" % (s, SUF[p]) + ''.join(m))
                F.append("!> \\section arg_table_%s_%s  Argument Table\n!! \\htmlinclude arg_table_%s_%s.html\n!!\nsubroutine %s_%s(%s)\n%s implicit none\n%s\n errmsg = ''\n errflg = 0\n%s\nend subroutine %s_%s\n" %
                         ((s, SUF[p]) * 2 + (s, SUF[p], ', '.join(lst), ''.join(dict.fromkeys(''.join(uses).splitlines(True))), '\n'.join(decl), '\n'.join(body), s, SUF[p])))
            F.append("end module %s\n" % s)
            f[s + '.meta'], f[s + '.F90'] = ''.join(M), ''.join(F)
            names.append(s)
        for su, parts in self.suites:
            f['suite_%s.xml' % su] = '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="%s" version="1.0">\n' % su + ''.join(
                ' <group name="%s">\n%s </group>\n' % (g, ''.join('  <scheme>%s</scheme>\n' % x for x in sch)) for g, sch in parts) + '</suite>\n'
        f['schemes.txt'] = ''.join(s + '.meta\n' for s in names)
        D = ['module vt_in', ' use ccpp_kinds', ' implicit none'] + [' %s :: %s' % (t, n) for n, t in INPUTS] + ['end module vt_in']
        f['vt_in.F90'] = '\n'.join(D) + '\n'
        for n, t in f.items():
            with open(os.path.join(d, n), 'w') as g:
                g.write(t)
        self.names = names

    def build(self, d):
        os.makedirs(os.path.join(d, 'out'), exist_ok=True)
        self.emit(d)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([PY, os.path.join(REPO, 'scripts', 'ccpp_capgen.py'), '--host-files', 'vt_ctl.meta,vt_host.meta', '--scheme-files', 'schemes.txt', '--suites',
                            ','.join('suite_%s.xml' % s for s, _ in self.suites), '--host-name', self.host, '--output-root', 'out'],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
        return p.returncode, p.stdout

    def files(self, d):
        j = lambda *a: os.path.join(d, *a)
        return [j('out', 'ccpp_kinds.F90')] + SRC + [j('vt_in.F90'), j('vt_host.F90'), j('vt_ctl.F90')] + [j(n + '.F90') for n in self.names] + \
            [j('out', 'ccpp_%s_cap.F90' % s) for s, _ in self.suites] + [j('out', '%s_ccpp_cap.F90' % self.host)]

    def suite(self, name):
        return dict(self.suites)[name]

    def args(self, suite, phase, part=None):
        """[(scheme, k, arg)] in the order of execution; a scheme listed more than once is called once outside run."""
        r, seen = [], set()
        for g, sch in self.suite(suite):
            if phase == 'run' and g != part:
                continue
            for s in sch:
                if phase != 'run' and s in seen:
                    continue
                seen.add(s)
                if phase in self.schemes[s]:
                    r.append((s, self.schemes[s][phase]))
        return r

    def consts(self, suite):
        """Constituents the metadata of a suite declares: [(std, attributes)]."""
        r = {}
        for ph in PH:
            for g, sch in self.suite(suite):
                for s in sch:
                    for a in self.schemes[s].get(ph, ()):
                        if a[0] == 'c' and a[1] not in r and not (a[3] if len(a) > 3 else {}).get('plain'):
                            r[a[1]] = a[3] if len(a) > 3 else {}
        return sorted(r.items())


def const(s, p, k):
    """A different odd constant for every argument."""
    return 3 + 2 * (sum(ord(c) for c in s + p) % 29) + 10 * k


# ---------------------------------------------------------------- driver
class Drv(P19.Drv):
    def __init__(self, lay, ops):
        self.lay, self.h = lay, lay.host
        super().__init__(1, ops)

    E = 'errmsg=em, errflg=ec'

    def start(self):
        self.w('ec = e0', "em = ''")

    def op_hinst(self, i):
        self.w('ec = 0', "em = ''", "call hc(%d)%%instantiate(trim(hn(%d)), 'of the host', trim(hu(%d)), '%s', advected=ha(%d), default_value=hd(%d), errcode=ec, errmsg=em)" % (i, i, i, LAYER, i, i))

    def op_phys(self, phase, suite, part=None, cs=None, ce=None):
        self.start()
        self.w("call %s_ccpp_physics_%s('%s'%s, %s)" % (self.h, PH[phase], suite, ", '%s', col_start=%d, col_end=%d" % (part, cs, ce) if phase == 'run' else '', self.E))
        self.o('i', 'merge(1, 0, ec /= 0)')

    def op_regc(self, n):
        self.start()
        self.w('call %s_ccpp_register_constituents(hc(1:%d), %s)' % (self.h, n, self.E))
        self.err()

    def op_initc(self):
        self.start()
        self.w('call %s_ccpp_initialize_constituents(%d, %d, %s)' % (self.h, NC, NL, self.E))
        self.err()

    def op_num(self, *kw):
        self.start()
        self.w('iv = -1', 'call %s_ccpp_number_constituents(iv%s, %s)' % (self.h, ''.join(', %s=qa' % k for k in kw), self.E))
        self.o('i', 'iv')
        self.o('l', 'ec /= 0')

    def op_index(self, name):
        self.start()
        self.w('iv = -1', 'call %s_const_get_index(%s, iv, %s)' % (self.h, self.text_of(name), self.E))
        self.o('i', 'merge(iv, %d, iv > -1000000)' % UNSET)
        self.o('l', 'ec /= 0')

    def text_of(self, name):
        return 'trim(%s)' % name if '(' in name or name == 'qn' else "'%s'" % name

    def op_exists(self, name):
        self.start()
        self.w('call %s_ccpp_is_scheme_constituent(%s, lv, %s)' % (self.h, self.text_of(name), self.E))
        self.o('l', 'lv')
        self.err()

    def op_props(self, n):
        self.w('cpp => %s_model_const_properties()' % self.h)
        self.o('l', 'associated(cpp)')
        self.w('iv = -1', 'if (associated(cpp)) iv = size(cpp)')
        self.o('i', 'iv')
        for k in range(1, n + 1):
            self.w("sv = ''", 'iv = %d' % UNSET, 'if (associated(cpp)) then', '  if (size(cpp) >= %d) then' % k,
                   '    call cpp(%d)%%standard_name(sv)' % k, '    call cpp(%d)%%const_index(iv)' % k, '  end if', 'end if')
            self.o('s', 'sv')
            self.o('i', 'iv')
            self.w("sv = ''", 'lv = .false.', 'rv = -77.0_kind_phys', 'if (associated(cpp)) then', '  if (size(cpp) >= %d) then' % k,
                   '    call cpp(%d)%%units(sv)' % k, '    call cpp(%d)%%is_advected(lv)' % k, '    call cpp(%d)%%default_value(rv, ec, em)' % k, '  end if', 'end if')
            self.o('s', 'sv')
            self.o('l', 'lv')
            self.o('r', 'rv')
            self.w("sv = ''", 'if (associated(cpp)) then', '  if (size(cpp) >= %d) call cpp(%d)%%long_name(sv)' % (k, k), 'end if')
            self.o('s', 'sv')

    def op_field(self, n):
        for f in ('constituents_array', 'advected_constituents_array'):
            self.w('fp => %s_%s()' % (self.h, f))
            self.o('l', 'associated(fp)')
            self.w('iv = -1', 'if (associated(fp)) iv = size(fp, 3)')
            self.o('i', 'iv')
            for k in range(1, n + 1):
                for i in range(1, NC + 1):
                    for j in range(1, NL + 1):
                        self.w('rv = -77.0_kind_phys', 'if (associated(fp)) then', '  if (size(fp, 3) >= %d) rv = fp(%d,%d,%d)' % (k, i, j, k), 'end if')
                        self.o('r', 'rv')

    def op_hv(self):
        for i in range(1, NC + 1):
            for j in range(1, NL + 1):
                self.o('r', 'hv(%d,%d)' % (i, j))

    def op_put(self, n):
        self.w('fp => %s_constituents_array()' % self.h)
        for k in range(1, n + 1):
            self.w('if (associated(fp)) then', '  if (size(fp, 3) >= %d) fp(:,:,%d) = fv(1:%d,1:%d,%d)' % (k, k, NC, NL, k), 'end if')

    def op_gather(self, slots):
        self.start()
        self.w('ca = -77.0_kind_phys', 'call %s_ccpp_gather_constituents(ca(1:%d,1:%d,1:%d), %s)' % (self.h, NC, NL, slots, self.E))
        self.o('l', 'ec /= 0')
        for k in range(1, slots + 1):
            for i in range(1, NC + 1):
                for j in range(1, NL + 1):
                    self.o('r', 'ca(%d,%d,%d)' % (i, j, k))

    def op_update(self, slots, back=False):
        self.start()
        if not back:
            self.w('ca(1:%d,1:%d,1:%d) = gv(1:%d,1:%d,1:%d)' % (NC, NL, slots, NC, NL, slots))
        self.w('call %s_ccpp_update_constituents(ca(1:%d,1:%d,1:%d), %s)' % (self.h, NC, NL, slots, self.E))
        self.o('l', 'ec /= 0')

    def op_clean(self):
        self.w('call %s_ccpp_deallocate_dynamic_constituents()' % self.h)

    def op_hdead(self, n):
        """Are the host's own property objects still there?"""
        for i in range(1, n + 1):
            self.o('l', 'hc(%d)%%is_instantiated()' % i)

    def text(self):
        n = max(1, len(self.out))
        pub = ['physics_%s' % p for p in sorted({PH[o[1]] for o in self.ops if o[0] == 'phys'})]
        D = ['module vt_drv', ' use ccpp_kinds', ' use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t, ccpp_constituent_prop_ptr_t', ' use vt_in', ' use vt_host, only: hv',
             ' use %s_ccpp_cap' % self.h, ' implicit none',
             ' type(ccpp_constituent_properties_t), target :: hc(%d)' % NH,
             ' type(ccpp_constituent_prop_ptr_t), pointer :: cpp(:) => null()',
             ' real(kind_phys), pointer :: fp(:,:,:) => null()',
             ' real(kind_phys) :: ca(%d,%d,%d)' % (NC, NL, NK),
             ' integer :: ec, iv', ' character(len=512) :: em', ' character(len=%d) :: sv' % SLEN, ' logical :: lv', ' real(kind_phys) :: rv',
             ' integer :: oi(%d)' % n, ' logical :: ol(%d)' % n, ' real(kind_phys) :: orr(%d)' % n, ' character(len=%d) :: os(%d)' % (SLEN, n),
             'contains', ' subroutine run()'] + self.L + [' end subroutine run', 'end module vt_drv']
        return '\n'.join(D) + '\n'


# ---------------------------------------------------------------- oracle
class Oracle(P19.Oracle):
    def __init__(self, lay, ops, V, t, eq, has):
        self.lay = lay
        super().__init__(1, ops, V, t, eq, has)

    def run(self, drv, out):
        self.hc = {}
        self.dyn = {s: None for s, _ in self.lay.suites}
        self.hv = {(i, j): Fraction(0) for i in range(1, NC + 1) for j in range(1, NL + 1)}
        self.tend = None
        self.regd = False
        return super().run(drv, out)

    def obj_of(self, name, long, units, adv, dflt):
        o = Obj()
        o.inst = True
        o.d.update(name=name, long=long, units=units, adv=adv, dflt=dflt, vdim=LAYER, type='mass', wet='dry')
        return o

    def op_hinst(self, i):
        V = self.V
        self.hc[i] = self.obj_of(V['hn', i], 'of the host', V['hu', i], V['ha', i], V['hd', i])

    def put_in(self, o):
        """True if it conflicts."""
        for x in self.reg:
            if self.t(self.eq(x.d['name'], o.d['name'])):
                return not all(self.t(self.eq(x.d[f], o.d[f])) for f in ('adv', 'thermo', 'water', 'units'))
        self.reg.append(o)
        return False

    def op_regc(self, n):
        self.op_reset()
        self.reg, bad = [], False
        L = [self.hc[i] for i in range(1, n + 1)]
        for s, _ in self.lay.suites:
            L += self.dyn[s] or []
        for s, _ in self.lay.suites:
            for std, o in self.lay.consts(s):
                L.append(self.obj_of(std, o.get('long', ''), o.get('units', 'kg kg-1'), bool(o.get('adv')), Fraction(o['dv'].split('_')[0]) if 'dv' in o else HUGE_R))
        for o in L:
            bad = bad or self.put_in(o)
        self.tl = not bad
        self.tend = None
        if bad:
            self.failed = True
            return self.error()
        self.noerr()

    def op_initc(self):
        ok = self.tl and not self.dl
        if not ok:
            return self.error()
        self.dl = True
        self.nc, self.nl = NC, NL
        idx = [(i, j) for i in range(1, NC + 1) for j in range(1, NL + 1)]
        self.field = [{x: o.d['dflt'] for x in idx} for o in self.reg]
        self.tend = [{x: Fraction(0) for x in idx} for o in self.reg]
        self.noerr()

    def op_num(self, *kw):
        if not self.tl:
            self.want(0, 'number of constituents') if self.reg is not None else self.take()
            return self.take()
        m = sum(1 for o in self.reg if self.t(self.eq(o.d['adv'], self.V['qa', None]))) if kw else len(self.reg)
        self.want(m, 'number of constituents')
        self.want(False, 'error')

    def value(self, name):
        if name == 'qn':
            return self.V['qn', None]
        if '(' in name:
            return self.V[name[:2], int(name[3:-1])]
        return name

    def op_index(self, name):
        idx, err = self.take(), self.take()
        k = self.find(self.value(name))
        if not self.tl or k is None:
            self.note(idx < 1, 'index %s for a name that is not available' % idx)
            if self.tl:
                self.note(self.eq(err, True), 'no error for an unknown name')
        else:
            self.setpos(k, idx)
            self.note(self.eq(err, False), 'error for a registered constituent')

    def op_exists(self, name):
        v = self.value(name)
        stds = sorted({std for s, _ in self.lay.suites for std, _ in self.lay.consts(s)})
        self.want(any(self.t(self.eq(v, std)) for std in stds), 'existence of %s' % name)
        self.noerr()

    def op_props(self, n):
        self.want(self.tl, 'properties pointer associated')
        m = len(self.reg) if self.tl else -1
        self.want(m, 'size of the properties array')
        for k in range(1, n + 1):
            name, idx, units, adv, dflt, long = [self.take() for _ in range(6)]
            if not self.tl or k > m:
                self.note(self.eq(name, ''), 'name')
                self.note(idx == UNSET, 'index')
                continue
            self.note(idx == k, 'properties array position %d has index %s' % (k, idx))
            who = self.find(name)
            if who is None:
                self.note(False, 'properties array holds a name that was not registered')
            else:
                self.setpos(who, k)
                d = self.reg[who].d
                self.note(self.eq(units, d['units']), 'units of constituent %d' % k)
                self.note(self.eq(adv, d['adv']), 'advection of constituent %d' % k)
                self.note(self.eq(dflt, d['dflt']), 'default value of constituent %d' % k)
                if d['long']:
                    self.note(self.eq(long, d['long']), 'long name of constituent %d' % k)

    def op_field(self, n):
        for part in ('all', 'adv'):
            ok = self.tl and self.dl
            self.want(ok, 'field pointer associated')
            m = -1 if not ok else len(self.reg) if part == 'all' else sum(self.advected())
            self.want(m, 'number of fields')
            for k in range(1, n + 1):
                for i in range(1, NC + 1):
                    for j in range(1, NL + 1):
                        if k > m:
                            self.want(SENT['r'], 'field')
                        else:
                            self.at_want(self.field, k, lambda f: f[i, j], 'field %d(%d,%d) (%s)' % (k, i, j, part))

    def op_hv(self):
        for i in range(1, NC + 1):
            for j in range(1, NL + 1):
                self.want(self.hv[i, j], 'host field (%d,%d)' % (i, j))

    def op_put(self, n):
        if self.tl and self.dl:
            for k in range(1, min(n, len(self.reg)) + 1):
                w = self.at(k)
                for i in range(1, NC + 1):
                    for j in range(1, NL + 1):
                        self.field[w][i, j] = self.V['fv', (i, j, k)]

    def op_gather(self, slots):
        err = self.take()
        vals = [{(i, j): self.take() for i in range(1, NC + 1) for j in range(1, NL + 1)} for _ in range(slots)]
        if not (self.tl and self.dl):
            return self.note(self.eq(err, True), 'gathered before the constituents are there') if self.reg is None else None
        bad = len(self.reg) > slots
        self.note(self.eq(err, bad), 'error of gather')
        self.ca = {}
        for k in range(len(self.reg) if not bad else 0):
            for x, v in vals[k].items():
                self.note(self.eq(v, self.field[self.at(k + 1)][x]), 'gathered field %d%s' % (k + 1, x))
                self.ca[x + (k + 1,)] = self.field[self.at(k + 1)][x]

    def op_update(self, slots, back=False):
        err = self.take()
        if not (self.tl and self.dl):
            return self.note(self.eq(err, True), 'updated before the constituents are there') if self.reg is None else None
        bad = len(self.reg) > slots
        self.note(self.eq(err, bad), 'error of update')
        if bad:
            self.field = [{x: None for x in f} for f in self.field]
            return
        for k in range(1, len(self.reg) + 1):
            for x in self.field[0]:
                self.field[self.at(k)][x] = self.ca[x + (k,)] if back else self.V['gv', x + (k,)]

    def op_clean(self):
        if not any(self.dyn.values()):
            return
        self.op_reset()
        self.dyn = {s: None for s in self.dyn}

    def op_hdead(self, n):
        for i in range(1, n + 1):
            self.want(True, 'property object %d of the host' % i)

    def op_phys(self, phase, suite, part=None, cs=1, ce=NC):
        err = self.take()
        if suite not in self.dyn:
            return self.note(self.eq(err, 1), 'unknown suite accepted')
        if phase == 'register' and self.dyn[suite] is not None:
            return self.note(self.eq(err, 1), 'suite registered twice')
        dyn, bad = [], False
        rows = range(1, NC + 1) if phase != 'run' else range(cs, ce + 1)
        idx = [(i, j) for i in rows for j in range(1, NL + 1)]
        for s, args in self.lay.args(suite, phase, part):
            if bad:
                break
            body = list(enumerate(args))
            for k, a in body:
                K = const(s, phase, k)
                if a[0] == 'c':
                    w = self.find(a[1])
                    o = dict(self.lay.consts(suite))[a[1]]
                    mul = 1000 if a[3:] and a[3].get('units', 'kg kg-1') == 'g kg-1' and o.get('units', 'kg kg-1') == 'kg kg-1' else 1
                    for x in idx:
                        f = self.field[w]
                        if a[2] == 'in':
                            self.hv[x] = self.hv[x] + K * f[x] * mul
                        elif a[2] == 'out':
                            f[x] = Fraction(K) / mul
                        else:
                            f[x] = (2 * f[x] * mul + K) / mul
                elif a[0] == 't':
                    for x in idx:
                        self.tend[self.find(a[1])][x] += K
                elif a[0] == 'all':
                    for f in self.field:
                        for x in idx:
                            f[x] = f[x] + K
                elif a[0] == 'alltend':
                    for f, g in zip(self.field, self.tend):
                        for x in idx:
                            f[x] = f[x] + g[x]
                            g[x] = Fraction(0)
                elif a[0] == 'dyn':
                    V = self.V
                    dyn += [self.obj_of(V['dn', j], 'dynamic', 'kg kg-1', V['da', j], V['dd', j]) for j in range(a[1], a[2] + 1)]
                elif a[0] == 'fail':
                    bad = self.t(V_ne(self.V['fl', a[1]]))
        self.note(self.eq(err, 1 if bad else 0), 'error code of %s' % phase)
        if phase == 'register' and not bad:
            self.dyn[suite] = dyn


def V_ne(v):
    return v != 0


# ---------------------------------------------------------------- symbolic run
def make_inputs(spec, eng=None, w=None, values=None):
    """Inputs of a run: symbolic (eng), or from a model (values)."""
    V = {}
    sym = spec['sym']

    def put(name, idx, v):
        if w is not None:
            s = w.var('vt_in', name)
            if idx is None:
                cell = s.val
            else:
                a = s.val
                off, mul = 0, 1
                for x, n in zip(idx if isinstance(idx, tuple) else (idx,), a.shape):
                    off += (x - 1) * mul
                    mul *= n
                cell = a.cells[off]
            w.store(cell, v)
        V[name, idx] = v

    def integer(nm, lo, hi, real=False):
        if eng is None:
            k = int(values.get(nm, 0 if lo <= 0 <= hi else lo))
            return float(k) if real else k
        k = z3.Int(nm)
        eng.inputs[nm] = k
        eng.assume(z3.And(k >= lo, k <= hi))
        return z3.ToReal(k) if real else k

    def text(a, idx, t, cset):
        cs = []
        for j, ch in enumerate(t):
            if ch != '?':
                cs.append(ch)
                continue
            nm = '%s%s_%d' % (a, idx or '', j)
            if eng is None:
                cs.append(chr(values.get(nm, ord(cset[0]))))
            else:
                c = z3.BitVec(nm, 8)
                eng.inputs[nm] = c
                eng.assume(z3.Or([c == ord(x) for x in cset]))
                cs.append(c)
        put(a, idx, ''.join(cs) if all(isinstance(c, str) for c in cs) else SymC([c if not isinstance(c, str) else z3.BitVecVal(ord(c), 8) for c in cs]))
    tx = spec['text']
    for a, n in (('hn', NH), ('hu', NH), ('dn', ND)):
        for i in range(1, n + 1):
            t = tx.get(a, [''])
            text(a, i, t[(i - 1) % len(t)], spec['chars'].get(a, 'abc'))
    text('qn', None, tx.get('qn', [''])[0], spec['chars'].get('qn', 'abc'))
    for a, n in (('ha', NH), ('da', ND), ('qa', None)):
        for i in range(1, n + 1) if n else (None,):
            nm = '%s%s' % (a, i or '')
            if a not in sym:
                put(a, i, bool(spec.get('fixed', {}).get((a, i), False)))
            elif eng is None:
                put(a, i, bool(values.get(nm, False)))
            else:
                eng.inputs[nm] = z3.Bool(nm)
                put(a, i, z3.Bool(nm))
    for a, n in (('hd', NH), ('dd', ND)):
        for i in range(1, n + 1):
            put(a, i, integer('%s%d' % (a, i), -9, 9, True))
    for i in range(1, NF + 1):
        put('fl', i, integer('fl%d' % i, -1, 2) if 'fl' in sym else 0)
    put('e0', None, integer('e0', -2, 2) if not spec.get('bv') else 0)
    for a in ('fv', 'gv'):
        for ix in itertools.product(range(1, NC + 1), range(1, NL + 1), range(1, NK + 1)):
            put(a, ix, integer('%s%d%d%d' % ((a,) + ix), -9, 9, True))
    return V


_prog = {}


def program(spec, drv):
    d, key = spec['dir'], spec['lay'].key()
    if _prog.get('key') != key:
        p = Program()
        for f in spec['lay'].files(d):
            p.add_file(f)
        _prog['base'], _prog['key'] = p, key
    _prog['base'].add_text(drv.text(), 'vt_drv.F90')
    return _prog['base']


def harness(eng, res, name, spec):
    drv = Drv(spec['lay'], spec['ops'])
    w = World(program(spec, drv), eng)
    w.bv = 32 if spec.get('bv') else None
    V = make_inputs(spec, eng, w)
    memo = {}

    def t(c):
        if isinstance(c, bool):
            return c
        k = c.get_id()
        if k not in memo:
            memo[k] = (c, w.truth(c))
        return memo[k][1]

    def eq(a, b):
        if a is None or b is None:
            return True             # not determined
        if isinstance(a, (str, SymC)) or isinstance(b, (str, SymC)):
            x, y = sval(a), sval(b)
            return w.char_eq(a, b) if len(x) == len(y) else False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            a, b = (b, a) if isinstance(a, bool) else (a, b)
            return a if b else z3.Not(a)
        if z3.is_bool(a) and z3.is_bool(b):
            return a == b
        if not is_sym(a) and not is_sym(b):
            return a == b
        return zreal(a) == zreal(b)
    try:
        w.call('vt_drv', 'run')
    except (Fault, Stop) as f:
        eng.check(False, 'fault: %s' % f, None)
        return
    out = []
    for k, kind in enumerate(drv.out):
        v = w.var('vt_drv', {'l': 'ol', 'i': 'oi', 'r': 'orr', 's': 'os'}[kind]).val.cells[k].v
        if v is UNDEF:
            eng.check(False, 'undefined value observed (%d)' % k, None)
            return
        if kind == 'i' and is_sym(v):
            v = w.cint(v)
        out.append(v)
    conds = Oracle(spec['lay'], spec['ops'], V, t, eq, None).run(drv, out)
    eng.reach('compared')
    if len(res.samples) < 1:
        res.samples.append(dict(witness=eng.concrete_inputs(eng.get_model())))
    for c, label in conds:
        if c is False:
            eng.check(False, label, None)
    sym = [c for c, _ in conds if is_sym(c)]
    if not sym:
        eng.check(True, 'observations', None)
        return
    # one query for all; if it fails, name the first condition that can fail
    both = z3.And(*sym)
    if eng.branch(both):
        eng.check(both, 'observations', None)
    else:
        for c, label in conds:
            if is_sym(c):
                eng.check(c, label, None)


def compiles(d, lay):
    """What the compiler says against the files of a layout ('' if nothing)."""
    b = os.path.join(d, 'mods')
    os.makedirs(b, exist_ok=True)
    p = subprocess.run(['gfortran', '-fsyntax-only', '-ffree-line-length-none', '-J', b, '-I', b] + lay.files(d), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       timeout=300)
    return p.stdout or 'exit status %d' % p.returncode if p.returncode else ''


def generate_script(lay, d, n, comp):
    """Recreates the layout's files and runs capgen on them (and the compiler): exit 1 when it still fails."""
    o = ['#!/bin/sh', '# Replays a violation of P27 (layout of %s) against the generator of the tree.' % n, 'R="${VT_REPO:-%s}"' % REPO, 'D=$(mktemp -d); cd "$D" || exit 2', 'mkdir out']
    for fn in sorted(os.listdir(d)):
        f = os.path.join(d, fn)
        if os.path.isfile(f):
            with open(f) as g:
                o += ["cat > %s <<'EOF_FILE'" % fn, g.read().rstrip('\n'), 'EOF_FILE']
    o += ['python3-vt "$R/scripts/ccpp_capgen.py" --host-files vt_ctl.meta,vt_host.meta --scheme-files schemes.txt --suites %s --host-name %s --output-root out || { rm -rf "$D"; exit 1; }' %
          (','.join('suite_%s.xml' % s for s, _ in lay.suites), lay.host)]
    if comp:
        fs = [('"$R"' + f[len(REPO):]) if f.startswith(REPO + '/') else os.path.relpath(f, d) for f in lay.files(d)]
        o.append('gfortran -fsyntax-only -ffree-line-length-none %s || { rm -rf "$D"; exit 1; }' % ' '.join(fs))
    return '\n'.join(o + ['rm -rf "$D"']) + '\n'


def job(name, spec, budget):
    return explore_job(name, lambda e, r: harness(e, r, name, spec), budget=budget)


# ---------------------------------------------------------------- compiled run
def real(v):
    try:
        return float(v)
    except OverflowError:
        return float('inf')


def compiled(ck, tag, spec, inputs):
    drv = Drv(spec['lay'], spec['ops'])
    V = make_inputs(spec, values=inputs)
    d = os.path.join(ck.scratch, tag)
    os.makedirs(d, exist_ok=True)
    text = drv.text() + drv.main(V)
    with open(os.path.join(d, 'drv.F90'), 'w') as g:
        g.write(text)
    srcs = spec['lay'].files(spec['dir'])
    ok, out = gfortran(srcs + ['drv.F90'], './drv', d, flags=['-g', '-fcheck=all', '-fsanitize=address', '-ffree-line-length-none'])
    text += ''.join('! ---- %s\n%s' % (os.path.basename(f), open(f).read()) for f in srcs if f not in SRC)
    if not ok:
        return None, 'compile error: ' + out[:2000], text
    rc, out = run_exe(os.path.join(d, 'drv'), d, timeout=30)
    lines = [l for l in out.splitlines() if l[:2] in ('l ', 'i ', 'r ', 's ')]
    if rc != 0 or len(lines) != len(drv.out):
        return False, 'exit status %s\n%s' % (rc, out[:1500]), text
    vals = []
    for l in lines:
        vals.append({'l': lambda x: x.strip() == 'T', 'i': int, 'r': float, 's': lambda x: x[1:-1]}[l[0]](l[2:]))

    def eq(a, b):
        if a is None or b is None:
            return True
        if isinstance(a, str) or isinstance(b, str):
            return a.rstrip() == b.rstrip()
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            a, b = real(a), real(b)
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) if max(abs(a), abs(b)) < 1e299 else (abs(a) > 1e299) == (abs(b) > 1e299)
        return a == b
    bad = [l for c, l in Oracle(spec['lay'], spec['ops'], V, bool, eq, None).run(drv, vals) if not c]
    return not bad, '; '.join(bad[:4]), text


# ---------------------------------------------------------------- scenarios
def scenarios(thorough):
    S = {}
    A = dict(adv=True)
    Z = {'run': [('all',), ('alltend',)]}
    one = Layout([('s1', [('g1', ['sa', 'sb', 'sz'])])],
                 {'sa': {'init': [('c', 'qa', 'out', dict(adv=True, dv='4.0_kind_phys', long='constituent a'))], 'run': [('c', 'qa', 'inout', A), ('t', 'qa')]},
                  'sb': {'run': [('c', 'qb', 'in', {}), ('c', 'qa', 'in', A)]}, 'sz': Z})

    def sc(name, lay, ops, text=None, chars=None, sym=(), **kw):
        s = S[name] = dict(lay=lay, ops=ops, text=dict(dict(hn=['ha', 'hb'], hu=['kg kg-1'], dn=['da', 'db', 'dc', 'dd'], qn=['q?']), **(text or {})), chars=chars or {}, sym=sym, **kw)
        s['bv'] = any('?' in x for a in ('hn', 'dn', 'qn') for x in s['text'][a] if a != 'qn' or any(o[0] == 'index' and o[1] == 'qn' for o in ops))
    look = lambda *n: [('index', x) for x in n]
    H = [('hinst', 1), ('hinst', 2)]
    sc('one', one, H + [('phys', 'register', 's1'), ('regc', 2), ('num',), ('num', 'advected')] + look('qa', 'qb', 'hn(1)', 'hn(2)', 'zz') +
       [('exists', 'qa'), ('exists', 'qb'), ('exists', 'hn(1)'), ('exists', 'zz'), ('props', 4), ('initc',), ('field', 4), ('put', 4), ('phys', 'init', 's1'), ('field', 4),
        ('phys', 'ts_init', 's1'), ('phys', 'run', 's1', 'g1', 1, 1), ('field', 4), ('phys', 'run', 's1', 'g1', 2, 2), ('field', 4), ('hv',), ('gather', 4), ('update', 4, True),
        ('field', 4), ('update', 4), ('field', 4), ('phys', 'ts_final', 's1'), ('phys', 'final', 's1'), ('field', 4), ('phys', 'register', 's9')], sym=('ha', 'qa'))
    names = look('qa', 'qb', 'hn(1)', 'hn(2)', 'zz')
    # nothing registered; out of order; registered again
    early = names + [('num',), ('props', 1), ('field', 1), ('exists', 'qa'), ('exists', 'zz')]
    sc('early', one, H + early + [('initc',), ('gather', 1), ('update', 1), ('regc', 1)] + names[:3] + [('num',), ('props', 3), ('field', 1), ('initc',), ('initc',), ('field', 3)], sym=('ha',))
    sc('again', one, H + [('regc', 1), ('props', 3), ('initc',), ('put', 3), ('regc', 2), ('num',)] + names + [('props', 4), ('initc',), ('field', 4), ('phys', 'init', 's1'),
        ('phys', 'ts_init', 's1'), ('phys', 'run', 's1', 'g1', 1, 2), ('field', 4), ('hdead', 2)], sym=('ha',))
    # host constituents that coincide with each other or with those of the suite
    sc('conflict', one, H + [('regc', 2), ('num',), ('num', 'advected')] + names + [('props', 4), ('initc',), ('field', 4)],
       text=dict(hn=['q?', 'q?'], hu=['kg kg-?']), chars=dict(hn='abc', hu='12'), sym=('ha', 'qa'))
    sc('exists', one, [('exists', 'qn'), ('exists', 'hn(1)'), ('regc', 0), ('num',), ('exists', 'qn'), ('exists', 'hn(1)')], text=dict(qn=['q??'], hn=['??']), chars=dict(qn='ab_', hn='qab'))
    sc('lookup', one, H + [('regc', 2), ('index', 'qn')], text=dict(qn=['??'], hn=['h?', 'h?']), chars=dict(qn='qhab', hn='ab'))
    # dynamic constituents
    dyn = Layout([('s1', [('g1', ['sa', 'sy']), ('g2', ['sb', 'sz'])])],
                 {'sa': {'register': [('dyn', 1, 2), ('dyn', 3, 3), ('fail', 1)], 'run': [('c', 'qa', 'inout', A), ('t', 'qa')]}, 'sy': {'run': [('all',)]}, 'sz': Z,
                  'sb': {'register': [('dyn', 4, 4), ('fail', 2)], 'init': [('c', 'qb', 'out', dict(dv='-2.0_kind_phys'))], 'run': [('c', 'qb', 'inout', {}), ('t', 'qb')]}})
    D = [('phys', 'register', 's1')]
    sc('dyn', dyn, H + D + [('regc', 1), ('num',), ('num', 'advected')] + look('qa', 'qb', 'hn(1)', 'dn(1)', 'dn(2)', 'dn(3)', 'dn(4)', 'hn(2)') +
       [('props', 7), ('initc',), ('field', 7), ('exists', 'dn(1)')], sym=('ha', 'da', 'qa'))
    sc('dynrun', dyn, H + D + [('regc', 0), ('initc',)] + look('qa', 'qb', 'dn(1)', 'dn(2)', 'dn(3)', 'dn(4)') + [('phys', 'init', 's1'), ('phys', 'ts_init', 's1'), ('phys', 'run', 's1', 'g1', 1, 2),
        ('phys', 'run', 's1', 'g2', 2, 2), ('field', 5), ('phys', 'run', 's1', 'g2', 1, 2), ('field', 5)], sym=('da',))
    sc('dynsame', dyn, H + D + [('regc', 1), ('num',)] + look('qa', 'qb', 'qc', 'da', 'db') + [('props', 5)],
       text=dict(hn=['q?'], dn=['d?', 'q?', 'dz', 'dy']), chars=dict(hn='ab', dn='abz'), sym=('ha',), fixed={('da', 2): True})
    sc('dynfail', dyn, H + D + D + [('regc', 1), ('num',), ('index', 'dn(1)'), ('index', 'dn(4)')], sym=('fl',))
    sc('dyntwice', dyn, H + D + D + [('regc', 1), ('index', 'dn(1)')] + D + [('index', 'dn(1)'), ('num',)])
    sc('clean', dyn, H + D + [('regc', 2), ('initc',), ('num',), ('clean',), ('num',), ('index', 'qa'), ('index', 'hn(1)'), ('index', 'dn(1)'), ('hdead', 2), ('props', 1), ('field', 1)], sym=('ha',))
    sc('cleanagain', dyn, H + D + [('regc', 1), ('initc',), ('clean',)] + D + [('regc', 1), ('num',)] + look('qa', 'qb', 'hn(1)', 'dn(1)', 'dn(4)') + [('props', 7), ('initc',), ('field', 3), ('clean',), ('clean',)],
       sym=('da',))
    sc('cleanearly', dyn, H + [('clean',)] + D + [('clean',)] + D + [('regc', 1), ('clean',), ('num',), ('index', 'qa')])
    sc('unregistered', dyn, H + [('regc', 1), ('num',)] + look('qa', 'hn(1)', 'dn(1)') + [('props', 3)])
    # schemes that use the same local names for different constituents
    same = Layout([('s1', [('g1', ['sa', 'sb', 'sz']), ('g2', ['sc'])])],
                  {'sa': {'init': [('c', 'qa', 'out', A)], 'run': [('c', 'qa', 'inout', A), ('t', 'qa')]}, 'sb': {'init': [('c', 'qb', 'out', {})], 'run': [('c', 'qb', 'inout', {}), ('t', 'qb')]},
                   'sc': {'run': [('c', 'qc', 'inout', A), ('c', 'qa', 'inout', A), ('c', 'qb', 'in', {})]}, 'sz': Z}, same=True)
    sc('same', same, H + [('regc', 1)] + look('qa', 'qb', 'qc', 'hn(1)') + [('num',), ('props', 4), ('initc',), ('put', 4), ('phys', 'init', 's1'), ('phys', 'ts_init', 's1'),
        ('phys', 'run', 's1', 'g1', 1, 1), ('phys', 'run', 's1', 'g2', 1, 2), ('phys', 'run', 's1', 'g1', 2, 2), ('field', 4), ('hv',)], sym=('ha',))
    # two suites
    two = Layout([('s1', [('g1', ['sa'])]), ('s2', [('g3', ['sc', 'sd', 'sz'])])],
                 {'sa': {'register': [('dyn', 1, 1)], 'run': [('c', 'qa', 'inout', A), ('t', 'qa')]},
                  'sc': {'register': [('dyn', 2, 2)], 'run': [('c', 'qc', 'inout', dict(units='kg kg-1')), ('c', 'qa', 'in', A)]},
                  'sd': {'register': [('dyn', 3, 3)], 'run': [('c', 'qc', 'inout', dict(units='g kg-1')), ('t', 'qc')]}, 'sz': Z})
    R2 = [('phys', 'register', 's1'), ('phys', 'register', 's2')]
    all2 = look('qa', 'qc', 'hn(1)', 'dn(1)', 'dn(2)', 'dn(3)')
    sc('two', two, H + R2 + [('regc', 1), ('num',), ('num', 'advected')] + all2 + [('props', 6), ('initc',), ('put', 5), ('phys', 'init', 's1'), ('phys', 'ts_init', 's1'),
        ('phys', 'init', 's2'), ('phys', 'ts_init', 's2'), ('phys', 'run', 's1', 'g1', 1, 2), ('phys', 'run', 's2', 'g3', 2, 2), ('field', 6), ('hv',), ('phys', 'run', 's1', 'g1', 1, 1),
        ('phys', 'run', 's2', 'g3', 1, 2), ('field', 6), ('hv',), ('gather', 5), ('gather', 4)], sym=('qa', 'ha'))
    for k, r in enumerate(R2):
        sc('only%d' % (k + 1), two, H + [r, ('regc', 1), ('num',)] + all2 + [('clean',), ('num',), ('index', 'qa'), ('hdead', 1)])
    sc('twosame', two, H + R2 + [('regc', 0), ('num',)] + look('qa', 'qc', 'da', 'db') + [('props', 3)], text=dict(dn=['d?', 'd?', 'dz']), chars=dict(dn='ab'), sym=('da',))
    clash = Layout([('s1', [('g1', ['sa'])]), ('s2', [('g3', ['sc'])])],
                   {'sa': {'run': [('c', 'qa', 'inout', A), ('c', 'qb', 'inout', {})]}, 'sc': {'run': [('c', 'qa', 'inout', dict(adv=True, units='g kg-1')), ('c', 'qc', 'inout', {})]}})
    sc('clash', clash, H + [('regc', 1), ('num',), ('index', 'qa'), ('initc',)], sym=('ha',))
    # suites without any constituent of their own
    none = Layout([('s1', [('g1', ['sa'])])], {'sa': {'run': [('all',), ('alltend',)]}})
    sc('none', none, H + [('phys', 'register', 's1'), ('regc', 2), ('num',), ('num', 'advected')] + look('hn(1)', 'hn(2)', 'qa') + [('exists', 'hn(1)'), ('props', 2), ('initc',), ('put', 2),
        ('phys', 'init', 's1'), ('phys', 'ts_init', 's1'), ('phys', 'run', 's1', 'g1', 2, 2), ('field', 2), ('gather', 2), ('update', 2), ('field', 2)], sym=('ha', 'qa'))
    sc('nothing', none, [('regc', 0), ('num',), ('index', 'qa'), ('props', 1), ('initc',), ('field', 1), ('gather', 1), ('update', 1)])
    pure = Layout([('s1', [('g1', ['sa'])])], {'sa': {'register': [('dyn', 1, 4)], 'run': [('all',), ('alltend',)]}})
    sc('pure', pure, [('phys', 'register', 's1'), ('regc', 0), ('num',)] + look('dn(1)', 'dn(2)', 'dn(3)', 'dn(4)', 'qa') + [('props', 4), ('initc',), ('field', 4), ('put', 4), ('phys', 'init', 's1'),
        ('phys', 'ts_init', 's1'), ('phys', 'run', 's1', 'g1', 1, 2), ('field', 4)], sym=('da',))
    return S


def main(tier):
    ck = Check('P27', tier, 'model_checking')
    ck.functions = ['ConstituentVarDict.write_host_routines, write_constituent_routines (through the caps they generate)', 'add_constituent_vars', 'write_host_cap',
                    'ccpp_model_constituents_t (as used by the caps)']
    ck.bounds = ['7 suite layouts of 1 or 2 suites, 1-2 groups, up to 4 schemes with up to 3 constituents each, %d host and up to %d run-time constituents' % (NH, ND),
                 '%d columns, %d layer; the column range of a call is any of the listed ones' % (NC, NL),
                 'fields, default values, advected flags and error codes symbolic; names symbolic over the listed letters, so that host, scheme and run-time constituents coincide or not',
                 'the call histories listed in scenarios()']
    ck.assumptions = ['the host learns a position by an index or property lookup before it uses it', 'allocation succeeds', 'real arithmetic is exact (only copies and comparisons occur)',
                      'no scheme has both a constituent and the array of all constituents as arguments (they would alias)']
    S = scenarios(ck.thorough)
    only = os.environ.get('VT_ONLY')
    if only:
        S = {k: v for k, v in S.items() if k in only.split(',')}
    budget = 3000 if ck.thorough else 600
    dirs = {}
    for n, s in S.items():
        k = s['lay'].key()
        if k not in dirs:
            dirs[k] = (os.path.join(ck.scratch, 'lay%d' % len(dirs)), n, s['lay'])
        s['dir'] = dirs[k][0]
    with ThreadPoolExecutor(8) as ex:
        for (d, n, lay), (rc, out) in zip(dirs.values(), ex.map(lambda x: x[2].build(x[0]), dirs.values())):
            for s in S.values():
                if s['dir'] == d:
                    s['lay'] = lay
            if rc != 0:
                ck.violation('capgen fails on the layout of %s:\n%s' % (n, out[-1500:]), ck.replay_file('generate_%s.sh' % n, generate_script(lay, d, n, False)), key='generate:' + n)
        if not ck.violations:
            for (d, n, lay), bad in zip(dirs.values(), ex.map(lambda x: compiles(x[0], x[2]), dirs.values())):
                if bad:
                    ck.violation('the code generated for the layout of %s does not compile:\n%s' % (n, bad[-1500:]),
                                 ck.replay_file('compile_%s.sh' % n, generate_script(lay, d, n, True)), key='compile:' + n)
    if ck.violations:
        return ck.finish()
    rs = run_jobs([(n, job, (n, s, budget), {}) for n, s in S.items()])
    for r in rs:
        for c in r.cexs if len(ck.violations) < int(os.environ.get("VT_MAXV", 3)) else []:
            ok, out, text = compiled(ck, 'cex_' + r.name, S[r.name], c['inputs'])
            if ok is False:
                p = ck.replay_file('%s.F90' % r.name, '! compile after src/ccpp_hashable.F90 src/ccpp_hash_table.F90 src/ccpp_constituent_prop_mod.F90; files in the order given below, driver last\n'
                                   '! operations: %s\n! fails: %s\n' % (S[r.name]['ops'], out.replace('\n', '\n! ')) + text)
                ck.violation('%s\ninputs=%r\ncompiled: %s' % (c['label'], c['inputs'], out[:800]), p, key=r.name)
            else:
                ck.errors.append('%s: counterexample did not reproduce (%s): %s' % (r.name, c['label'], out[:500]))
        ck.add(r)
    if not ck.violations:
        some = [r for r in rs if r.samples]
        with ThreadPoolExecutor(8) as ex:
            for r, (ok, out, _) in zip(some, ex.map(lambda r: compiled(ck, 'val_' + r.name, S[r.name], r.samples[0]['witness']), some)):
                if ok:
                    ck.validated += 1
                else:
                    ck.errors.append('%s: encoding and compiled code disagree: %s' % (r.name, out[:700]))
    return ck.finish()
