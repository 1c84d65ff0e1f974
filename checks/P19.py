"""P19: the constituent registry (src/ccpp_constituent_prop_mod.F90)."""
from concurrent.futures import ThreadPoolExecutor
import itertools
import os
from fractions import Fraction
import z3
from vt.runner import Check, explore_job, run_jobs, gfortran, run_exe, REPO
from vt.fort.interp import Program, World, SymC, Fault, Stop, UNDEF, is_sym, chars

SRC = [os.path.join(REPO, 'src', f) for f in ('ccpp_hashable.F90', 'ccpp_hash_table.F90', 'ccpp_constituent_prop_mod.F90')]
KINDS = "module ccpp_kinds\n use iso_fortran_env, only: kind_phys => real64\n implicit none\n public kind_phys\nend module ccpp_kinds\n"
LAYER = 'vertical_layer_dimension'
IFACE = 'vertical_interface_dimension'
UNSET = -9999           # what the driver writes for an index that is not set
SLEN = 80
# properties of a constituent: Fortran keyword -> (input array, kind)
OPTS = dict(advected=('ad', 'l'), default_value=('dv', 'r'), min_value=('mv', 'r'), molar_mass=('mm', 'r'),
            water_species=('ws', 'l'), mixing_ratio_type=('mt', 's'))
QUERY = dict(advected='qa', thermo_active='qt', water_species='qw')
SENT = {'r': Fraction(-77)}


# ---------------------------------------------------------------- driver (the same text is encoded and compiled)
class Drv:
    """Straight-line Fortran: every observation has a fixed slot."""
    def __init__(self, n, ops, ptr_first=False):
        self.n, self.ops = n, ops
        self.L = []
        self.out = []           # kinds
        self.tags = []
        for k, op in enumerate(ops):
            first = len(self.out)
            getattr(self, 'op_' + op[0])(*op[1:])
            self.tags.append((first, len(self.out)))

    def w(self, *lines):
        self.L += ['   ' + x for x in lines]

    def o(self, kind, expr):
        self.out.append(kind)
        k = len(self.out)
        if kind == 'l':
            self.w('ol(%d) = %s' % (k, expr))
        elif kind == 'i':
            self.w('oi(%d) = %s' % (k, expr))
        elif kind == 'r':
            self.w('orr(%d) = %s' % (k, expr))
        else:
            self.w('os(%d) = %s' % (k, expr))

    def err(self):
        self.o('l', 'ec /= 0')
        self.o('l', 'len_trim(em) > 0')

    E = 'errcode=ec, errmsg=em'

    # --- properties
    def op_new(self, i):
        self.w('allocate(p(%d)%%x)' % i)

    def op_free(self, i):
        self.w('deallocate(p(%d)%%x)' % i)

    def op_inst(self, i, opts=()):
        self.w('ec = e0', "em = ''")
        self.w('call p(%d)%%x%%instantiate(trim(nm(%d)), trim(ln(%d)), trim(un(%d)), trim(vd(%d)), &' % (i, i, i, i, i))
        for o in opts:
            a = '%s(%d)' % (OPTS[o][0], i)
            self.w('     %s=%s, &' % (o, a if OPTS[o][1] != 's' else 'trim(%s)' % a))
        self.w('     %s)' % self.E)
        self.err()

    def op_dealloc(self, i):
        self.w('call p(%d)%%x%%deallocate()' % i)

    def op_set(self, what, i, via='p'):
        a = {'set_thermo_active': 'th', 'set_water_species': 'sw', 'set_minimum': 'sm', 'set_molar_mass': 'sg', 'set_const_index': 'si'}[what]
        self.w('ec = e0', "em = ''", 'call %s%%%s(%s(%d), %s)' % (self.who(i, via), what, a, i, self.E))
        self.err()

    def who(self, i, via):
        return {'p': 'p(%d)%%x', 't': 'pt(%d)', 'c': 'cp(%d)'}[via] % i

    def op_point(self, i, j):
        self.w('px => p(%d)%%x' % j, 'ec = e0', "em = ''", 'call pt(%d)%%set(px, %s)' % (i, self.E))
        self.err()

    def op_copy(self, i, j):
        """cp(i) = property object j"""
        self.w('cp(%d) = p(%d)%%x' % (i, j))

    def op_get(self, i, via='p'):
        w = self.who(i, via)
        for g in ('standard_name', 'long_name', 'units', 'vertical_dimension'):
            self.w('ec = e0', "em = ''", "sv = ''", 'call %s%%%s(sv, %s)' % (w, g, self.E))
            self.o('s', 'sv')
            self.o('l', 'ec /= 0')
        for g in ('is_advected', 'is_thermo_active', 'is_water_species', 'is_mass_mixing_ratio', 'is_volume_mixing_ratio',
                  'is_number_concentration', 'is_dry', 'is_moist', 'is_wet', 'has_default'):
            self.w('ec = e0', "em = ''", 'call %s%%%s(lv, %s)' % (w, g, self.E))
            self.o('l', 'lv')
            self.o('l', 'ec /= 0')
        for g in ('minimum', 'molar_mass', 'default_value'):
            self.w('ec = e0', "em = ''", 'call %s%%%s(rv, %s)' % (w, g, self.E))
            self.o('r', 'rv')
            self.o('l', 'ec /= 0')
        for g in ('is_layer_var', 'is_interface_var', 'is_2d_var'):
            self.o('l', '%s%%%s()' % (w, g))
        self.w('ec = e0', "em = ''")
        if via == 't':
            self.w('call %s%%const_index(iv, %s)' % (w, self.E))
        else:
            self.w('iv = %s%%const_index(%s)' % (w, self.E))
        self.o('i', 'merge(iv, %d, iv > -1000000)' % UNSET)
        self.o('l', 'ec /= 0')

    def op_isinst(self, i, via='p'):
        self.w('ec = e0', "em = ''")
        self.o('l', '%s%%is_instantiated(%s)' % (self.who(i, via), self.E))
        self.err()

    def op_equiv(self, i, j):
        self.w('ec = e0', "em = ''", 'call p(%d)%%x%%equivalent(p(%d)%%x, lv, %s)' % (i, j, self.E))
        self.o('l', 'lv')

    # --- registry
    def op_init(self, n):
        self.w('call mc%%initialize_table(%d)' % n)

    def op_add(self, i):
        self.w('ec = e0', "em = ''", 'call mc%%new_field(p(%d)%%x, %s)' % (i, self.E))
        self.err()

    def op_addq(self, i):
        self.w('call mc%%new_field(p(%d)%%x)' % i)

    def op_lock(self):
        self.w('ec = e0', "em = ''", 'call mc%%lock_table(%s)' % self.E)
        self.err()

    def op_lockq(self):
        self.w('call mc%lock_table()')

    def op_data(self, nc, nl):
        self.w('ec = e0', "em = ''", 'call mc%%lock_data(%d, %d, %s)' % (nc, nl, self.E))
        self.err()

    def op_reset(self):
        self.w('call mc%reset()')

    def op_state(self):
        for f in ('const_props_locked', 'const_data_locked', 'locked'):
            self.w('ec = e0', "em = ''")
            self.o('l', 'mc%%%s(%s)' % (f, self.E))
        self.o('i', 'mc%num_layer_vars')
        self.o('i', 'mc%num_advected_vars')

    def op_index(self, i):
        self.name_index('trim(nm(%d))' % i)

    def op_unknown(self, text):
        self.name_index("'%s'" % text)

    def name_index(self, e):
        self.w('ec = e0', "em = ''", 'iv = -1', 'call mc%%const_index(iv, %s, %s)' % (e, self.E))
        self.o('i', 'merge(iv, %d, iv > -1000000)' % UNSET)

    def op_meta(self, i):
        """The copy of the metadata that the registry returns for the name of object i."""
        self.w('ec = e0', "em = ''", 'call mc%%field_metadata(trim(nm(%d)), cp(1), %s)' % (i, self.E))
        self.err()
        self.op_get(1, 'c')
        self.w('call cp(1)%deallocate()')

    def op_num(self, *kw):
        self.w('ec = e0', "em = ''", 'iv = -1', 'call mc%%num_constituents(iv%s, %s)' % (''.join(', %s=%s' % (k, QUERY[k]) for k in kw), self.E))
        self.o('i', 'iv')
        self.o('l', 'ec /= 0')

    def op_props(self, n):
        """Walk the array of properties pointers."""
        self.w('cpp => mc%constituent_props_ptr()')
        self.o('l', 'associated(cpp)')
        self.w('iv = -1', 'if (associated(cpp)) iv = size(cpp)')
        self.o('i', 'iv')
        for k in range(1, n + 1):
            self.w("sv = ''", 'iv = %d' % UNSET, 'if (associated(cpp)) then', '  if (size(cpp) >= %d) then' % k,
                   '    call cpp(%d)%%standard_name(sv)' % k, '    call cpp(%d)%%const_index(iv)' % k, '  end if', 'end if')
            self.o('s', 'sv')
            self.o('i', 'iv')

    def op_field(self, nc, nl, n):
        """Sizes and contents of the field array and of the advected part."""
        for f in ('field_data_ptr', 'advected_constituents_ptr'):
            self.w('fp => mc%%%s()' % f)
            self.o('l', 'associated(fp)')
            self.w('iv = -1', 'if (associated(fp)) iv = size(fp, 3)')
            self.o('i', 'iv')
            self.w('iv = -1', 'if (associated(fp)) iv = size(fp, 1) * 100 + size(fp, 2)')
            self.o('i', 'iv')
            for k in range(1, n + 1):
                for i in range(1, nc + 1):
                    for j in range(1, nl + 1):
                        self.w('rv = -77.0_kind_phys', 'if (associated(fp)) then', '  if (size(fp, 3) >= %d) rv = fp(%d,%d,%d)' % (k, i, j, k), 'end if')
                        self.o('r', 'rv')
        self.w('rv = -77.0_kind_phys')
        for k in range(1, n + 1):
            self.w('rv = -77.0_kind_phys', 'if (allocated(mc%vars_minvalue)) then',
                   '  if (size(mc%%vars_minvalue) >= %d) rv = mc%%vars_minvalue(%d)' % (k, k), 'end if')
            self.o('r', 'rv')
        self.w('rv = -77.0_kind_phys', 'if (allocated(mc%vars_layer_tend)) rv = 0.0_kind_phys',
               'if (allocated(mc%vars_layer_tend)) then', '  if (size(mc%vars_layer_tend) > 0) rv = maxval(abs(mc%vars_layer_tend))', 'end if')
        self.o('r', 'rv')

    def op_put(self, nc, nl, k):
        """Write the symbolic field values through the host's pointer."""
        self.w('fp => mc%field_data_ptr()', 'if (associated(fp)) then', '  if (size(fp, 3) >= %d) fp(:,:,%d) = fv(1:%d,1:%d,%d)' % (k, k, nc, nl, k), 'end if')

    def op_in(self, nc, nl, slots, *kw):
        self.w('ec = e0', "em = ''", 'ca = -77.0_kind_phys',
               'call mc%%copy_in(ca(1:%d,1:%d,1:%d)%s, %s)' % (nc, nl, slots, ''.join(', %s=%s' % (k, QUERY[k]) for k in kw), self.E))
        self.o('l', 'ec /= 0')
        for k in range(1, slots + 1):
            for i in range(1, nc + 1):
                for j in range(1, nl + 1):
                    self.o('r', 'ca(%d,%d,%d)' % (i, j, k))

    def op_out(self, nc, nl, slots, *kw):
        self.w('ec = e0', "em = ''", 'ca(1:%d,1:%d,1:%d) = gv(1:%d,1:%d,1:%d)' % (nc, nl, slots, nc, nl, slots),
               'call mc%%copy_out(ca(1:%d,1:%d,1:%d)%s, %s)' % (nc, nl, slots, ''.join(', %s=%s' % (k, QUERY[k]) for k in kw), self.E))
        self.o('l', 'ec /= 0')

    # --- text
    def text(self):
        n = max(1, len(self.out))
        D = ['module vt_in', ' use ccpp_kinds', ' implicit none']
        for name, typ in INPUTS:
            D.append(' %s :: %s' % (typ, name))
        D += ['end module vt_in', 'module vt_drv', ' use ccpp_kinds', ' use ccpp_constituent_prop_mod', ' use vt_in', ' implicit none',
              ' type :: pbox', '  type(ccpp_constituent_properties_t), pointer :: x => null()', ' end type pbox',
              ' type(ccpp_model_constituents_t), target :: mc',
              ' type(pbox) :: p(%d)' % self.n,
              ' type(ccpp_constituent_properties_t), target :: cp(%d)' % self.n,
              ' type(ccpp_constituent_prop_ptr_t) :: pt(%d)' % self.n,
              ' type(ccpp_constituent_properties_t), pointer :: px => null()',
              ' type(ccpp_constituent_prop_ptr_t), pointer :: cpp(:) => null()',
              ' real(kind_phys), pointer :: fp(:,:,:) => null()',
              ' real(kind_phys) :: ca(%d,%d,%d)' % CA,
              ' integer :: ec, iv', ' character(len=512) :: em', ' character(len=%d) :: sv' % SLEN, ' logical :: lv', ' real(kind_phys) :: rv',
              ' integer :: oi(%d)' % n, ' logical :: ol(%d)' % n, ' real(kind_phys) :: orr(%d)' % n, ' character(len=%d) :: os(%d)' % (SLEN, n),
              'contains', ' subroutine run()'] + self.L + [' end subroutine run', 'end module vt_drv']
        return '\n'.join(D) + '\n'

    def main(self, vals):
        M = ['program vt_main', ' use vt_drv', ' use vt_in', ' use ccpp_kinds', ' implicit none']
        for (name, i), v in sorted(vals.items()):
            t = name if i is None else '%s(%s)' % (name, ','.join(str(x) for x in (i if isinstance(i, tuple) else (i,))))
            if isinstance(v, str):
                v = "'%s'" % v.replace("'", "''")
            elif isinstance(v, bool):
                v = '.true.' if v else '.false.'
            elif isinstance(v, float):
                v = repr(v) + '_kind_phys'
            M.append(' %s = %s' % (t, v))
        M.append(' call run()')
        for k, kind in enumerate(self.out, 1):
            if kind == 'l':
                M.append(" write(*,'(a,l1)') 'l ', ol(%d)" % k)
            elif kind == 'i':
                M.append(" write(*,'(a,i0)') 'i ', oi(%d)" % k)
            elif kind == 'r':
                M.append(" write(*,'(a,es30.17e4)') 'r ', orr(%d)" % k)
            else:
                M.append(" write(*,'(3a)') 's [', trim(os(%d)), ']'" % k)
        M += ["end program vt_main"]
        return '\n'.join(M) + '\n'


NMAX = 4
CA = (2, 2, 5)
INPUTS = [(a + '(%d)' % NMAX, 'character(len=%d)' % SLEN) for a in ('nm', 'ln', 'un', 'vd', 'mt')] + \
         [(a + '(%d)' % NMAX, 'logical') for a in ('ad', 'ws', 'th', 'sw')] + \
         [(a + '(%d)' % NMAX, 'real(kind_phys)') for a in ('dv', 'mv', 'mm', 'sm', 'sg')] + \
         [('si(%d)' % NMAX, 'integer'), ('e0', 'integer')] + [(a, 'logical') for a in ('qa', 'qt', 'qw')] + \
         [('fv(%d,%d,%d)' % CA, 'real(kind_phys)'), ('gv(%d,%d,%d)' % CA, 'real(kind_phys)')]
HUGE_R = Fraction(10) ** 308      # stands for HUGE in the encoding; compared as 'huge' in compiled runs


# ---------------------------------------------------------------- oracle
class Obj:
    """What a properties object should say."""
    def __init__(self):
        self.blank()

    def blank(self):
        self.inst = False
        self.d = dict(adv=False, thermo=False, water=False, minv=Fraction(0), mass=HUGE_R, dflt=HUGE_R, type=None, wet=None, name='', long='', units='', vdim='')
        self.ind = UNSET

    def copy(self):
        o = Obj()
        o.inst, o.d, o.ind = self.inst, dict(self.d), self.ind
        return o


class Oracle:
    """Consumes the observations of a run and yields (condition, label).  V: the inputs; t(cond): truth (may fork);
    eq(a, b): equality of values, has(s, text): is text contained in the string s?"""
    def __init__(self, n, ops, V, t, eq, has):
        self.n, self.ops, self.V, self.t, self.eq, self.has = n, ops, V, t, eq, has

    def run(self, drv, out):
        self.p = {i: None for i in range(1, self.n + 1)}
        self.pt = {i: None for i in range(1, self.n + 1)}
        self.cp = {i: Obj() for i in range(1, self.n + 1)}
        self.reg = None             # list of objects; None: not initialised
        self.tl = self.dl = False
        self.field = None           # {(constituent object id): {(i, j): value}}
        self.conds = []
        for k, op in enumerate(self.ops):
            a, b = drv.tags[k]
            self.o = list(out[a:b])
            self.where = '%d:%s' % (k, op)
            getattr(self, 'op_' + op[0])(*op[1:])
            if self.o:
                raise RuntimeError('observations left after %s' % (op,))
        return self.conds

    def take(self):
        return self.o.pop(0)

    def want(self, v, label):
        self.conds.append((self.eq(self.take(), v), '%s: %s' % (self.where, label)))

    def note(self, c, label):
        self.conds.append((c, '%s: %s' % (self.where, label)))

    def noerr(self):
        self.want(False, 'error reported')
        self.want(False, 'error message')

    def error(self, msg=True):
        self.want(True, 'error not reported')
        if msg:
            self.want(True, 'no error message')
        else:
            self.take()

    # properties
    def op_new(self, i):
        self.p[i] = Obj()

    def op_free(self, i):
        self.p[i] = None

    def op_dealloc(self, i):
        self.p[i].blank()

    def op_inst(self, i, opts=()):
        o, V = self.p[i], self.V
        if o.inst:
            o.blank()
            return self.error()
        d = dict(name=V['nm', i], long=V['ln', i], units=V['un', i], vdim=V['vd', i], adv=False, thermo=False, water=False,
                 minv=Fraction(0), mass=HUGE_R, dflt=HUGE_R)
        for k, f in (('advected', 'adv'), ('default_value', 'dflt'), ('min_value', 'minv'), ('molar_mass', 'mass'), ('water_species', 'water')):
            if k in opts:
                d[f] = V[OPTS[k][0], i]
        nm = V['nm', i]
        d['type'] = 'vol' if self.has(nm, 'volume_mixing_ratio') else 'num' if self.has(nm, 'number_concentration') else 'mass'
        if 'mixing_ratio_type' in opts:
            mt = V['mt', i]
            for x in ('wet', 'moist', 'dry'):
                if self.t(self.eq(mt, x)):
                    d['wet'] = x
                    break
            else:
                return self.error()
        else:
            d['wet'] = 'wet' if self.has(nm, 'wrt_moist_air_and_condensed_water') else 'moist' if self.has(nm, 'wrt_moist_air') else 'dry'
        o.inst, o.d, o.ind = True, d, UNSET
        self.noerr()

    def obj(self, i, via):
        return {'p': self.p, 't': self.pt, 'c': self.cp}[via][i]

    def op_set(self, what, i, via='p'):
        o = self.obj(i, via)
        if o is None or not o.inst:
            return self.error()
        V = self.V
        if what == 'set_const_index':
            if not (isinstance(o.ind, int) and o.ind == UNSET):
                return self.error()
            o.ind = V['si', i]
        else:
            f, a = {'set_thermo_active': ('thermo', 'th'), 'set_water_species': ('water', 'sw'), 'set_minimum': ('minv', 'sm'), 'set_molar_mass': ('mass', 'sg')}[what]
            o.d[f] = V[a, i]
        self.noerr()

    def op_point(self, i, j):
        if self.pt[i] is not None:
            return self.error()
        self.pt[i] = self.p[j]
        self.noerr()

    def op_copy(self, i, j):
        self.cp[i] = self.p[j].copy()

    def op_isinst(self, i, via='p'):
        o = self.obj(i, via)
        self.want(o.inst, 'is_instantiated')
        if o.inst:
            self.noerr()
        else:
            self.error()

    def op_get(self, i, via='p', free_index=False):
        o = self.obj(i, via)
        self.get(o, via)

    def get(self, o, via, index=None):
        bad = o is None or not o.inst
        d = (o.d if not bad else Obj().d)
        e = lambda l: self.want(bad, 'error of ' + l)
        if bad and o is not None and via == 't':
            d = dict(d)
        for f, l in (('name', 'standard_name'), ('long', 'long_name'), ('units', 'units'), ('vdim', 'vertical_dimension')):
            self.want(d[f], l)
            e(l)
        for v, l in ((d['adv'], 'is_advected'), (d['thermo'], 'is_thermo_active'), (d['water'], 'is_water_species'),
                     (d['type'] == 'mass', 'is_mass_mixing_ratio'), (d['type'] == 'vol', 'is_volume_mixing_ratio'), (d['type'] == 'num', 'is_number_concentration'),
                     (d['wet'] == 'dry', 'is_dry'), (d['wet'] == 'moist', 'is_moist'), (d['wet'] == 'wet', 'is_wet'),
                     (False if bad else not self.t(self.eq(d['dflt'], HUGE_R)), 'has_default')):
            self.want(v, l)
            e(l)
        for v, l in ((HUGE_R if bad else d['minv'], 'minimum'), (HUGE_R if bad else d['mass'], 'molar_mass'), (HUGE_R if bad else d['dflt'], 'default_value')):
            self.want(v, l)
            e(l)
        none = o is None
        self.want(False if none else self.eq(d['vdim'], LAYER), 'is_layer_var')
        self.want(False if none else self.eq(d['vdim'], IFACE), 'is_interface_var')
        self.want(False if none else self.eq(d['vdim'], ''), 'is_2d_var')
        ind = UNSET if bad else o.ind if index is None else index
        if isinstance(ind, tuple):
            self.setpos(ind[1], self.take())
        else:
            self.want(ind, 'const_index')
        e('const_index')

    def op_equiv(self, i, j):
        a, b = self.p[i], self.p[j]
        if not (a.inst and b.inst):
            return self.want(False, 'equivalent')
        v = True
        for f in ('name', 'long', 'vdim', 'units', 'adv', 'dflt', 'minv', 'mass', 'thermo', 'water'):
            v = v and self.t(self.eq(a.d[f], b.d[f]))
        v = v and a.d['wet'] == b.d['wet'] and a.d['type'] == b.d['type']
        self.want(v, 'equivalent')

    # registry
    def op_init(self, n):
        self.op_reset()
        self.reg = []

    def op_reset(self):
        if self.reg is not None and self.tl:
            for o in self.reg:
                for i in self.p:
                    if self.p[i] is o:
                        self.p[i] = None
        self.reg = None
        self.tl = self.dl = False
        self.field = None

    def op_add(self, i, silent=False):
        err = lambda: None if silent else self.error()
        if self.reg is None or self.tl or self.dl:
            return err()
        o = self.p[i]
        for x in self.reg:
            if self.t(self.eq(x.d['name'], o.d['name'])):
                same = all(self.t(self.eq(x.d[f], o.d[f])) for f in ('adv', 'thermo', 'water', 'units'))
                if same:
                    return None if silent else self.noerr()
                return err()
        self.reg.append(o)
        return None if silent else self.noerr()

    def op_addq(self, i):
        self.op_add(i, True)

    def layers(self):
        return sum(1 for o in self.reg if self.t(self.eq(o.d['vdim'], LAYER))) if self.reg else 0

    def op_lock(self, silent=False):
        if self.reg is None:
            if not silent:
                self.take()
                self.take()
            return None
        bad = self.tl or self.layers() != len(self.reg)
        if not self.tl and not bad:
            self.tl = True
            for k, o in enumerate(self.reg):
                o.ind = ('registry', k)
        if silent:
            return None
        return self.error() if bad else self.noerr()

    def op_lockq(self):
        self.op_lock(True)

    def op_data(self, nc, nl):
        if self.reg is None or self.dl or not self.tl:
            return self.error()
        self.dl = True
        self.nc, self.nl = nc, nl
        self.field = [{(i, j): o.d['dflt'] for i in range(1, nc + 1) for j in range(1, nl + 1)} for o in self.reg]
        self.minv = [o.d['minv'] for o in self.reg]
        self.noerr()

    def advected(self):
        return [self.t(o.d['adv']) for o in self.reg]

    def op_state(self):
        self.want(self.tl, 'const_props_locked')
        self.want(self.dl, 'const_data_locked')
        self.want(self.tl and self.dl, 'locked')
        self.want(self.layers(), 'num_layer_vars')
        if self.tl:
            self.want(sum(self.advected()), 'num_advected_vars')
        else:
            self.take()

    # the registry may order constituents as it likes, as long as advected ones come first
    def setpos(self, k, idx):
        if not hasattr(self, 'pos') or self.pos[0] is not self.reg:
            self.pos = (self.reg, {})
        n, na = len(self.reg), sum(self.advected())
        if k in self.pos[1]:
            self.note(self.pos[1][k] == idx, 'the index of a constituent changes')
            return
        lo, hi = (1, na) if self.advected()[k] else (na + 1, n)
        self.note(lo <= idx <= hi, 'index %s of an %s constituent outside %d..%d' % (idx, 'advected' if self.advected()[k] else 'unadvected', lo, hi))
        self.note(idx not in self.pos[1].values(), 'two constituents with index %s' % idx)
        self.pos[1][k] = idx

    def at(self, idx):
        if not hasattr(self, 'pos') or self.pos[0] is not self.reg:
            self.pos = (self.reg, {})
        for k, v in self.pos[1].items():
            if v == idx:
                return k
        return None

    def find(self, name):
        for k, o in enumerate(self.reg or ()):
            if self.t(self.eq(o.d['name'], name)):
                return k
        return None

    def named(self, name):
        idx = self.take()
        k = self.find(name)
        if not self.tl or k is None:
            self.note(idx == UNSET, 'index %s for a name that is not available' % idx)
        else:
            self.setpos(k, idx)

    def op_index(self, i):
        self.named(self.V['nm', i])

    def op_unknown(self, text):
        self.named(text)

    def op_meta(self, i):
        k = self.find(self.V['nm', i])
        if not self.tl:
            self.take(), self.take()
            return self.get(Obj(), 'c')
        if k is None:
            self.error()
            return self.get(Obj(), 'c')
        self.noerr()
        idx = self.o[-2]
        self.setpos(k, idx)
        self.get(self.reg[k], 'c', index=idx)

    def match(self, kw):
        """Constituents that match, by position in the registry's order."""
        V = self.V
        r = []
        for k, o in enumerate(self.reg):
            ok = True
            for q in kw:
                f = dict(advected='adv', thermo_active='thermo', water_species='water')[q]
                ok = ok and self.t(self.eq(o.d[f], V[QUERY[q], None]))
            if ok:
                r.append(k)
        return r

    def op_num(self, *kw):
        if not self.tl:
            self.want(0, 'num_constituents')
            self.want(self.reg is None, 'error')
            return
        self.want(len(self.match(kw)), 'num_constituents')
        self.want(False, 'error')

    def op_props(self, n):
        self.want(self.tl, 'properties pointer associated')
        m = len(self.reg) if self.tl else -1
        self.want(m, 'size of the properties array')
        seen = set()
        for k in range(1, n + 1):
            name, idx = self.take(), self.take()
            if not self.tl or k > m:
                self.note(self.eq(name, ''), 'name')
                self.note(idx == UNSET, 'index')
                continue
            self.note(idx == k, 'properties array position %d has index %s' % (k, idx))
            who = self.find(name)
            if who is None:
                self.note(False, 'properties array holds a name that was not registered')
            else:
                self.setpos(who, k)

    def op_field(self, nc, nl, n):
        for part in ('all', 'adv'):
            ok = self.tl and self.dl
            self.want(ok, 'field pointer associated')
            m = -1 if not ok else len(self.reg) if part == 'all' else sum(self.advected())
            self.want(m, 'number of fields')
            self.want(self.nc * 100 + self.nl if ok else -1, 'shape of the fields')
            for k in range(1, n + 1):
                for i in range(1, nc + 1):
                    for j in range(1, nl + 1):
                        if k > m:
                            self.want(SENT['r'], 'field')
                        else:
                            self.at_want(self.field, k, lambda f: f[i, j], 'field %d(%d,%d) (%s)' % (k, i, j, part))
        for k in range(1, n + 1):
            if self.dl and k <= len(self.reg):
                self.at_want(self.minv, k, lambda f: f, 'minimum value of field %d' % k)
            else:
                self.want(SENT['r'], 'minimum value of field %d' % k)
        if self.dl:
            self.want(Fraction(0), 'tendencies')
        else:
            self.want(SENT['r'], 'tendencies')

    def at_want(self, vals, k, f, label):
        who = self.at(k)
        if who is not None:
            self.want(f(vals[who]), label)
        else:
            self.take()
            if len(self.pos[1]) >= len(self.reg):
                self.note(False, label + ' of nobody')

    def op_put(self, nc, nl, k):
        if self.tl and self.dl and k <= len(self.reg):
            w = self.at(k)
            for i in range(1, nc + 1):
                for j in range(1, nl + 1):
                    self.field[w][i, j] = self.V['fv', (i, j, k)]

    def op_in(self, nc, nl, slots, *kw):
        err = self.take()
        vals = [[(i, j, self.take()) for i in range(1, nc + 1) for j in range(1, nl + 1)] for _ in range(slots)]
        if not (self.tl and self.dl):
            return self.note(self.eq(err, self.reg is None), 'error')
        hits = [self.at(x) for x in sorted(self.pos[1][k] for k in self.match(kw))]
        bad = len(hits) > slots or (nl != self.nl and bool(hits))
        self.note(self.eq(err, bad), 'error of copy_in')
        if bad:
            return
        for s, hit in enumerate(hits):
            for i, j, v in vals[s]:
                self.note(self.eq(v, self.field[hit][i, j]), 'slot %d of copy_in (%d,%d)' % (s + 1, i, j))

    def op_out(self, nc, nl, slots, *kw):
        err = self.take()
        if not (self.tl and self.dl):
            return self.note(self.eq(err, self.reg is None), 'error')
        hits = [self.at(x) for x in sorted(self.pos[1][k] for k in self.match(kw))]
        bad = len(hits) > slots or (nl != self.nl and bool(hits))
        self.note(self.eq(err, bad), 'error of copy_out')
        for s, hit in enumerate(hits[:slots] if nl == self.nl else ()):
            for i in range(1, nc + 1):
                for j in range(1, nl + 1):
                    self.field[hit][i, j] = self.V['gv', (i, j, s + 1)]


# ---------------------------------------------------------------- symbolic run
_prog = {}


def program(key, drv):
    if 'base' not in _prog:
        p = Program()
        p.add_text(KINDS, 'ccpp_kinds.F90')
        for f in SRC:
            p.add_file(f)
        _prog['base'] = p
    if _prog.get('key') != key:
        _prog['base'].add_text(drv.text(), 'vt_drv.F90')
        _prog['key'] = key
    return _prog['base']


def sval(v):
    """Values of a symbolic or concrete character value without trailing blanks."""
    c = list(chars(v))
    while c and c[-1] in (' ', 32):
        c.pop()
    return c


def make_inputs(eng, w, spec):
    """Values of the inputs; also stored in the module of the encoded program."""
    V = {}
    sc = spec['sym']

    def put(name, idx, v):
        s = w.var('vt_in', name)
        cell = s.val if idx is None else None
        if cell is None:
            a = s.val
            ix = idx if isinstance(idx, tuple) else (idx,)
            off, mul = 0, 1
            for x, n in zip(ix, a.shape):
                off += (x - 1) * mul
                mul *= n
            cell = a.cells[off]
        w.store(cell, v)
        V[name, idx] = v
    n = spec['n']
    for a in ('nm', 'ln', 'un', 'vd', 'mt'):
        for i in range(1, n + 1):
            t = spec['text'].get(a, [''])
            t = t[(i - 1) % len(t)]
            cs = []
            for j, ch in enumerate(t):
                if ch == '?':
                    c = z3.BitVec('%s%d_%d' % (a, i, j), 8)
                    eng.inputs['%s%d_%d' % (a, i, j)] = c
                    cset = spec['chars'].get(a)
                    eng.assume(z3.Or([c == ord(x) for x in cset]) if cset else z3.And(z3.UGE(c, 33), z3.ULE(c, 126)))
                    cs.append(c)
                else:
                    cs.append(ord(ch))
            put(a, i, SymC([c if not isinstance(c, int) else z3.BitVecVal(c, 8) for c in cs]) if '?' in t else t)
    for a in ('ad', 'ws', 'th', 'sw'):
        for i in range(1, n + 1):
            if a in sc:
                v = z3.Bool('%s%d' % (a, i))
                eng.inputs['%s%d' % (a, i)] = v
            else:
                v = bool(spec.get('fixed', {}).get((a, i), False))
            put(a, i, v)
    for a in ('dv', 'mv', 'mm', 'sm', 'sg'):
        for i in range(1, n + 1):
            k = z3.Int('%s%d' % (a, i))
            eng.inputs['%s%d' % (a, i)] = k
            eng.assume(z3.And(k >= -9, k <= 9))
            put(a, i, z3.ToReal(k))
    for i in range(1, n + 1):
        if spec.get('bv'):
            put('si', i, 1)
            continue
        k = z3.Int('si%d' % i)
        eng.inputs['si%d' % i] = k
        eng.assume(z3.And(k >= 1, k <= 9))
        put('si', i, k)
    if spec.get('bv'):
        put('e0', None, 0)
    else:
        k = z3.Int('e0')
        eng.inputs['e0'] = k
        eng.assume(z3.And(k >= -2, k <= 2))
        put('e0', None, k)
    for a in ('qa', 'qt', 'qw'):
        v = z3.Bool(a)
        eng.inputs[a] = v
        put(a, None, v)
    for a in ('fv', 'gv'):
        for ix in itertools.product(*(range(1, x + 1) for x in CA)):
            if a not in sc:
                put(a, ix, Fraction(0))
                continue
            nm = '%s%d%d%d' % ((a,) + ix)
            k = z3.Int(nm)
            eng.inputs[nm] = k
            eng.assume(z3.And(k >= -9, k <= 9))
            put(a, ix, z3.ToReal(k))
    return V


def concrete_inputs(inputs, spec):
    """The same values from a model."""
    V = {}
    sc = spec['sym']
    for a in ('nm', 'ln', 'un', 'vd', 'mt'):
        for i in range(1, spec['n'] + 1):
            t = spec['text'].get(a, [''])
            t = t[(i - 1) % len(t)]
            cset = spec['chars'].get(a)
            V[a, i] = ''.join(chr(inputs.get('%s%d_%d' % (a, i, j), ord(cset[0]) if cset else 65)) if ch == '?' else ch for j, ch in enumerate(t))
    for a in ('ad', 'ws', 'th', 'sw'):
        for i in range(1, spec['n'] + 1):
            V[a, i] = bool(inputs.get('%s%d' % (a, i), False)) if a in sc else bool(spec.get('fixed', {}).get((a, i), False))
    for a in ('dv', 'mv', 'mm', 'sm', 'sg'):
        for i in range(1, spec['n'] + 1):
            V[a, i] = float(inputs.get('%s%d' % (a, i), 0))
    for i in range(1, spec['n'] + 1):
        V['si', i] = int(inputs.get('si%d' % i, 1))
    V['e0', None] = int(inputs.get('e0', 0))
    for a in ('qa', 'qt', 'qw'):
        V[a, None] = bool(inputs.get(a, False))
    for a in ('fv', 'gv'):
        for ix in itertools.product(*(range(1, x + 1) for x in CA)):
            V[a, ix] = float(inputs.get('%s%d%d%d' % ((a,) + ix), 0)) if a in sc else 0.0
    return V


def zreal(v):
    return z3.RealVal(str(v)) if isinstance(v, Fraction) else v


def harness(eng, res, name, spec):
    drv = Drv(spec['n'], spec['ops'])
    w = World(program(name, drv), eng)
    w.bv = 32 if spec.get('bv') else None
    V = make_inputs(eng, w, spec)
    memo = {}

    def t(c):
        if isinstance(c, bool):
            return c
        k = c.get_id()
        if k not in memo:
            memo[k] = (c, w.truth(c))
        return memo[k][1]

    def eq(a, b):
        if isinstance(a, (str, SymC)) or isinstance(b, (str, SymC)):
            x, y = sval(a), sval(b)
            if len(x) != len(y):
                return False
            r = w.char_eq(a, b)
            return r
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            a, b = (b, a) if isinstance(a, bool) else (a, b)
            return a if b else z3.Not(a)
        if not is_sym(a) and not is_sym(b):
            return a == b
        return zreal(a) == zreal(b)

    def has(s, text):
        n = len(chars(s))
        cs = chars(s)
        for k in range(n - len(text) + 1):
            part = cs[k:k + len(text)]
            sub = SymC(part) if any(is_sym(c) for c in part) else ''.join(c if isinstance(c, str) else chr(c) for c in part)
            if t(w.char_eq(sub, text)):
                return True
        return False
    try:
        w.call('vt_drv', 'run')
    except (Fault, Stop) as f:
        eng.check(False, 'fault: %s' % f, None)
        return
    out = []
    for k, kind in enumerate(drv.out):
        v = w.var('vt_drv', {'l': 'ol', 'i': 'oi', 'r': 'orr', 's': 'os'}[kind]).val.cells[k].v
        if v is UNDEF:
            eng.check(False, 'undefined value observed (%d)' % k, None)
            return
        if kind == 'i' and is_sym(v) and spec.get('concrete_index', True):
            v = w.cint(v)
        out.append(v)
    conds = Oracle(spec['n'], spec['ops'], V, t, eq, has).run(drv, out)
    eng.reach('compared')
    if len(res.samples) < 1:
        res.samples.append(dict(witness=eng.concrete_inputs(eng.get_model())))
    for c, label in conds:
        if c is False:
            eng.check(False, label, None)
    sym = [c for c, _ in conds if is_sym(c)]
    if not sym:
        eng.check(True, 'observations', None)
        return
    # one query for all; if it fails, name the first condition that can fail
    both = z3.And(*sym)
    if eng.branch(both):
        eng.check(both, 'observations', None)
    else:
        for c, label in conds:
            if is_sym(c):
                eng.check(c, label, None)


def job(name, spec, budget):
    return explore_job(name, lambda e, r: harness(e, r, name, spec), budget=budget)


# ---------------------------------------------------------------- compiled run
def compiled(ck, tag, spec, inputs):
    drv = Drv(spec['n'], spec['ops'])
    V = concrete_inputs(inputs, spec)
    d = os.path.join(ck.scratch, tag)
    os.makedirs(d, exist_ok=True)
    for f, x in (('ccpp_kinds.F90', KINDS), ('drv.F90', drv.text() + drv.main(V))):
        with open(os.path.join(d, f), 'w') as g:
            g.write(x)
    ok, out = gfortran(['ccpp_kinds.F90'] + SRC + ['drv.F90'], './drv', d, flags=['-g', '-fcheck=all', '-fsanitize=address'])
    text = KINDS + drv.text() + drv.main(V)
    if not ok:
        return None, 'compile error: ' + out[:2000], text
    rc, out = run_exe(os.path.join(d, 'drv'), d, timeout=20)
    lines = [l for l in out.splitlines() if l[:2] in ('l ', 'i ', 'r ', 's ')]
    if rc != 0 or len(lines) != len(drv.out):
        return False, 'exit status %s\n%s' % (rc, out[-1500:]), text
    vals = []
    for l in lines:
        vals.append({'l': lambda x: x.strip() == 'T', 'i': int, 'r': float, 's': lambda x: x[1:-1]}[l[0]](l[2:]))

    def eq(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return a.rstrip() == b.rstrip()
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            a, b = float(a), float(b)
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) if max(abs(a), abs(b)) < 1e300 else (abs(a) > 1e300) == (abs(b) > 1e300)
        return a == b
    bad = [l for c, l in Oracle(spec['n'], spec['ops'], V, bool, eq, lambda s, x: x in s).run(drv, vals) if not c]
    return not bad, '; '.join(bad[:4]), text


# ---------------------------------------------------------------- scenarios
ALLOPT = tuple(OPTS)


def scenarios(thorough):
    S = {}
    T = dict(nm=['?'], ln=['long name'], un=['kg kg-1'], vd=[LAYER], mt=['dry'])
    C = dict(nm='abq', un='12', vd='12')

    def sc(name, n, ops, text=None, chars=None, sym=(), **kw):
        S[name] = dict(n=n, ops=ops, text=dict(T, **(text or {})), chars=dict(C, **(chars or {})), sym=sym, **kw)
    new = lambda n, opts=(): [x for i in range(1, n + 1) for x in (('new', i), ('inst', i, opts))]
    # --- life of one properties object
    sets = [('set', x, 1) for x in ('set_thermo_active', 'set_water_species', 'set_minimum', 'set_molar_mass', 'set_const_index')]
    sc('object', 1, [('new', 1), ('isinst', 1), ('get', 1), ('inst', 1, ('advected', 'water_species')), ('isinst', 1), ('get', 1)] + sets +
       [('get', 1), ('set', 'set_const_index', 1), ('get', 1), ('copy', 1, 1), ('get', 1, 'c'), ('dealloc', 1), ('isinst', 1), ('get', 1)],
       sym=('ad', 'ws', 'th', 'sw'), concrete_index=False)
    sc('unset', 1, [('new', 1)] + sets + [('get', 1), ('get', 1, 't')] + [x + ('t',) for x in sets] + [('point', 1, 1), ('get', 1, 't'), ('point', 1, 1)], sym=('th', 'sw'),
       concrete_index=False)
    for opts in (ALLOPT, (), ('default_value',), ('min_value', 'molar_mass')):
        sc('again' + str(len(opts)), 1, [('new', 1), ('inst', 1, ALLOPT)] + sets[:4] + [('dealloc', 1), ('inst', 1, opts), ('get', 1)], sym=('ad', 'ws', 'th', 'sw'),
           text=dict(mt=['moist']), concrete_index=False)
    sc('twice', 1, [('new', 1), ('inst', 1, ALLOPT), ('inst', 1, ALLOPT), ('get', 1), ('inst', 1), ('get', 1)], sym=('ad', 'ws'), concrete_index=False)
    # what the standard name and the explicit type say about the constituent
    for k, nm in enumerate(('?olume_mixing_ratio', 'volume_mixing_?atio_x', 'a_number_concentratio?', '?umber_concentration_of_volume_mixing_ratio', 'mass_mixing_ratio',
                            'q_wrt_moist_ai?', 'q_wrt_moist_air?and_condensed_water', 'q_wrt_moist_air_and_?ondensed_water_x', 'wrt_dry_air', '?_number_concentration_wrt_moist_air')):
        for opts in ((), ('mixing_ratio_type',)):
            sc('name%d%s' % (k, 't' if opts else ''), 1, [('new', 1), ('inst', 1, opts), ('get', 1), ('isinst', 1)], text=dict(nm=[nm], mt=['?et' if k % 2 else 'moist']),
               chars=dict(nm=None, mt=None), concrete_index=False)
    for k, mt in enumerate(('dr?', '??t', 'm?ist', 'dry?', 'we')):
        sc('type%d' % k, 1, [('new', 1), ('inst', 1, ('mixing_ratio_type',)), ('isinst', 1), ('get', 1)], text=dict(mt=[mt], nm=['wrt_moist_air']), chars=dict(mt=None),
           concrete_index=False)
    sc('vdims', 3, new(3) + [('get', 1), ('get', 2), ('get', 3)] + [('point', 1, 1), ('get', 1, 't'), ('point', 2, 2), ('get', 2, 't'), ('point', 3, 3), ('get', 3, 't')],
       text=dict(vd=['vertical_layer_dimensio?', 'vertical_interfac?_dimension', '']), chars=dict(vd=None), concrete_index=False)
    sc('pointer', 2, new(2, ALLOPT) + [('point', 1, 1), ('point', 2, 1), ('get', 1, 't')] + [x + ('t',) for x in sets] + [('get', 1, 't'), ('get', 1), ('get', 2, 't'), ('get', 2),
       ('set', 'set_const_index', 1, 't'), ('point', 2, 2), ('get', 2, 't')], sym=('ad', 'ws', 'th', 'sw'), concrete_index=False)
    sc('copy', 2, new(2, ALLOPT) + sets + [('copy', 1, 1), ('get', 1, 'c'), ('copy', 1, 2), ('get', 1, 'c'), ('get', 1), ('get', 2)], sym=('ad', 'ws', 'th'), concrete_index=False,
       text=dict(mt=['wet', 'dry']))
    # equality of two objects: each field different in turn
    for opts in (ALLOPT, ('default_value',), ('min_value', 'molar_mass', 'advected')):
        for k, f in enumerate(('nm', 'un', 'vd', 'ln', 'mt', None)):
            if f is None or opts == ALLOPT:
                sc('equiv%d_%s' % (len(opts), f), 2, new(2, opts) + [('set', 'set_thermo_active', 1), ('set', 'set_thermo_active', 2), ('equiv', 1, 2), ('equiv', 2, 1), ('equiv', 1, 1)],
                   text={f: ['dry', 'wet'] if f == 'mt' else ['a?', 'a?']} if f else dict(nm=['a']), chars=dict(nm='xy', vd='xy', ln='xy', un='xy'),
                   sym=('ad', 'ws', 'th'), concrete_index=False)
    sc('equivkind', 2, new(2) + [('equiv', 1, 2)], text=dict(nm=['a', 'a'], un=['1']), sym=())
    # --- registry: states
    q = [('index', 1), ('unknown', 'zz'), ('num',), ('props', 1), ('field', 1, 1, 1), ('in', 1, 1, 1), ('out', 1, 1, 1), ('meta', 1), ('state',)]
    sc('states', 2, new(2, ALLOPT) + [('state',)] + q + [('add', 1), ('data', 1, 1), ('init', 1), ('state',)] + q + [('data', 1, 1), ('add', 1), ('state',)] + q +
       [('data', 1, 1), ('lock',), ('state',), ('add', 2), ('state',), ('lock',), ('data', 1, 1), ('state',)] + q + [('data', 1, 1), ('lock',), ('add', 2), ('state',)] + q,
       text=dict(nm=['a', 'b']), sym=('ad', 'fv', 'gv'))
    return_to = [('reset',), ('state',), ('index', 1), ('num',), ('props', 1), ('field', 1, 1, 1)]
    for mode in ('reset', 'init'):
        sc('reuse_' + mode, 4, new(4, ALLOPT) + [('init', 2), ('add', 1), ('add', 2), ('lock',), ('data', 1, 1)] + (return_to if mode == 'reset' else []) +
           [('init', 2), ('state',), ('index', 3), ('add', 3), ('add', 4), ('lock',), ('state',), ('index', 3), ('index', 4), ('unknown', 'a'), ('data', 2, 1), ('state',),
            ('field', 2, 1, 3), ('props', 3)], text=dict(nm=['a', 'b', 'b', 'c']), sym=('ad',))
    sc('reuse_lock', 3, new(3, ALLOPT) + [('init', 2), ('add', 1), ('lock',), ('init', 2), ('add', 2), ('add', 3), ('state',), ('lock',), ('data', 1, 2), ('state',), ('index', 2),
       ('index', 3), ('unknown', 'a'), ('field', 1, 2, 3), ('reset',), ('state',), ('unknown', 'b')], text=dict(nm=['a', 'b', 'c']), sym=('ad',))
    sc('nothing', 1, [('init', 1), ('lock',), ('state',), ('num',), ('props', 1), ('unknown', 'a'), ('data', 1, 1), ('state',), ('field', 1, 1, 1), ('in', 1, 1, 1), ('out', 1, 1, 1)])
    # --- registry: contents
    full = lambda n: [('index', i) for i in range(1, n + 1)] + [('props', n)]
    for n, num in ((1, 1), (2, 1), (3, 1), (3, 3)) + (((4, 1), (4, 8)) if thorough else ()):
        sc('names%d_%d' % (n, num), n, new(n, ('advected',)) + [('init', num)] + [('add', i) for i in range(1, n + 1)] + [('lock',), ('state',)] + full(n) + [('num',), ('num', 'advected')],
           sym=('ad',))
    sc('conflict', 2, new(2, ('advected', 'water_species')) + [('set', 'set_thermo_active', 1), ('set', 'set_thermo_active', 2), ('init', 2), ('add', 1), ('add', 2), ('state',), ('lock',), ('state',),
       ('index', 1), ('index', 2), ('props', 2), ('meta', 1), ('meta', 2)], text=dict(nm=['a', '?'], un=['?']), sym=('ad', 'ws', 'th'), chars=dict(nm='ab'))
    sc('quiet', 3, new(3, ('advected',)) + [('init', 2), ('addq', 1), ('addq', 2), ('addq', 3), ('lockq',), ('state',)] + full(3), sym=('ad',), text=dict(nm=['a', '?', 'b'], un=['1', '1', '2']),
       chars=dict(nm='abq'))
    sc('levels', 2, new(2, ('advected',)) + [('init', 2), ('add', 1), ('add', 2), ('state',), ('lock',), ('state',), ('data', 1, 1), ('state',)], sym=('ad',),
       text=dict(nm=['a', 'b'], vd=[LAYER, 'vertical_?ayer_dimension']), chars=dict(vd=None))
    qs = [('num',) + k for r in range(4) for k in itertools.combinations(QUERY, r)]
    th = [('set', 'set_thermo_active', i) for i in (1, 2, 3)]
    sc('queries', 2, new(2, ('advected', 'water_species')) + th[:2] + [('init', 2), ('add', 1), ('add', 2), ('lock',)] + qs, text=dict(nm=['a', 'b']), sym=('ad', 'ws', 'th'))
    sc('metadata', 2, new(2, ALLOPT) + th[:2] + [('init', 2), ('add', 1), ('add', 2), ('lock',), ('meta', 1), ('meta', 2), ('get', 1), ('get', 2)],
       text=dict(nm=['a', 'b'], mt=['wet', 'dry'], un=['?'], ln=['?']), chars=dict(un='12', ln='xy'), sym=('ad', 'ws', 'th'))
    sc('late', 2, new(2, ALLOPT) + [('init', 2), ('add', 1), ('add', 2)] + th[:2] + [('lock',), ('set', 'set_water_species', 1), ('set', 'set_minimum', 2), ('num', 'thermo_active'),
       ('num', 'water_species'), ('data', 1, 1), ('field', 1, 1, 2), ('meta', 2), ('set', 'set_const_index', 1), ('index', 1)], text=dict(nm=['a', 'b']), sym=('ad', 'ws', 'th', 'sw'))
    # --- field data
    for n, nc, nl in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2)):
        sc('field%d%d%d' % (n, nc, nl), n, new(n, ('advected', 'default_value', 'min_value')) + [('init', n)] + [('add', i) for i in range(1, n + 1)] + [('lock',), ('data', nc, nl), ('state',)] +
           full(n) + [('field', nc, nl, n)] + [('put', nc, nl, k) for k in range(1, n + 1)] + [('field', nc, nl, n)], text=dict(nm=['a', 'b', 'q']), sym=('ad', 'fv'))
        for kw in ((), ('advected',), ('thermo_active',), ('water_species',), ('advected', 'water_species'), ('thermo_active', 'water_species')):
            if n > 2 and not thorough and len(kw) > 1:
                continue
            base = new(n, ('advected', 'water_species')) + th[:n] + [('init', n)] + [('add', i) for i in range(1, n + 1)] + [('lock',), ('data', nc, nl)] + full(n) + \
                [('put', nc, nl, k) for k in range(1, n + 1)]
            sym = ('fv', 'gv') + tuple({'advected': 'ad', 'thermo_active': 'th', 'water_species': 'ws'}[k] for k in kw)
            for slots in (n, n + 1, n - 1) if n < 3 else (n, n - 1):
                if slots:
                    sc('copy%d%d%d_%d_%s' % (n, nc, nl, slots, ''.join(k[0] for k in kw)), n, base + [('in', nc, nl, slots) + kw, ('out', nc, nl, slots) + kw, ('field', nc, nl, n), ('in', nc, nl, slots) + kw],
                       text=dict(nm=['a', 'b', 'q']), sym=sym)
    sc('wronglevels', 2, new(2, ('advected',)) + [('init', 2), ('add', 1), ('add', 2), ('lock',), ('data', 1, 1)] + full(2) + [('put', 1, 1, 1), ('in', 1, 2, 2), ('out', 1, 2, 2), ('field', 1, 1, 2),
       ('in', 1, 2, 2, 'advected'), ('out', 1, 2, 2, 'advected'), ('field', 1, 1, 2)], text=dict(nm=['a', 'b']), sym=('ad', 'fv', 'gv'))
    for s in S.values():
        s['bv'] = any(o[0] == 'init' for o in s['ops']) and any('?' in x for x in s['text']['nm'])
    return S


def main(tier):
    ck = Check('P19', tier, 'model_checking')
    ck.functions = ['ccpp_constituent_properties_t (all bindings)', 'ccpp_constituent_prop_ptr_t (all bindings)', 'ccpp_model_constituents_t (all bindings)',
                    'ccpp_hash_table_t, ccpp_hash_iterator_t, ccpp_hashable_char_t (as used by them)']
    ck.bounds = ['up to 4 constituents, every name one symbolic letter of a/b/q, so that equal names, hash collisions and all orders occur',
                 'values are symbolic integers -9..9 (as reals), flags and the incoming error code (-2..2) symbolic',
                 'field arrays up to 2x2x3 with symbolic contents', 'the operation histories listed in scenarios()']
    ck.assumptions = ['the caller allocates the objects it registers, as the interface demands', 'allocation succeeds',
                      'real arithmetic is exact (only copies and comparisons occur)']
    S = scenarios(ck.thorough)
    only = os.environ.get('VT_ONLY')
    if only:
        S = {k: v for k, v in S.items() if k in only.split(',')}
    budget = 3000 if ck.thorough else 600
    rs = run_jobs([(n, job, (n, s, budget), {}) for n, s in S.items()])
    for r in rs:
        for c in r.cexs if len(ck.violations) < int(os.environ.get("VT_MAXV", 3)) else []:
            ok, out, text = compiled(ck, 'cex_' + r.name, S[r.name], c['inputs'])
            if ok is False:
                p = ck.replay_file('%s.F90' % r.name, '! compile with src/ccpp_hashable.F90 src/ccpp_hash_table.F90 src/ccpp_constituent_prop_mod.F90 -fcheck=all\n'
                                   '! operations: %s\n! fails: %s\n' % (S[r.name]['ops'], out.replace('\n', '\n! ')) + text)
                ck.violation('%s\ninputs=%r\ncompiled: %s' % (c['label'], c['inputs'], out[:800]), p, key=r.name)
            else:
                ck.errors.append('%s: counterexample did not reproduce (%s): %s' % (r.name, c['label'], out[:500]))
        ck.add(r)
    if not ck.violations:
        some = [r for r in rs if r.samples]
        if not ck.thorough:
            some = some[::3]
        with ThreadPoolExecutor(8) as ex:
            done = list(ex.map(lambda r: compiled(ck, 'val_' + r.name, S[r.name], r.samples[0]['witness']), some))
            for r, (ok, out, _) in zip(some, done):
                if ok:
                    ck.validated += 1
                else:
                    ck.errors.append('%s: encoding and compiled code disagree: %s' % (r.name, out[:500]))
    return ck.finish()
