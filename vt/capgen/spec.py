"""Scenario description and emission of the files capgen reads (metadata, Fortran, suite XML)."""
import os
import re
from fractions import Fraction

KIND = 'kind_phys'


class V:
    """A variable entry of a metadata table."""
    def __init__(self, local, std, units='1', type='real', kind=None, dims=(), intent=None, optional=False, active=None,
                 top=None, extra=(), init=None, cond=None, falloc=None, fdims=None, noemit=False):
        self.local = local
        self.std = std
        self.units = units
        self.type = type
        self.kind = (KIND if type == 'real' else None) if kind is None else (kind or None)
        self.dims = tuple(dims)
        self.intent = intent
        self.optional = optional
        self.active = active          # metadata text of the condition
        self.cond = cond              # python: f(get) -> z3/py bool, get(std) gives a host value
        self.top = top
        self.extra = list(extra)      # more metadata lines
        self.init = init
        self.falloc = falloc          # Fortran allocatable (host arrays: default True)
        self.fdims = fdims            # explicit Fortran dims (host arrays)
        self.noemit = noemit          # alias of (a section of) another variable: no Fortran declaration

    @property
    def default(self):
        """Default value of the metadata (a number)."""
        for x in self.extra:
            m = re.match(r'default_value = (-?[0-9.]+)', x)
            if m:
                return Fraction(m.group(1))
        return None

    @property
    def base(self):
        return self.local.split('(')[0]

    @property
    def isddt(self):
        return self.type not in ('real', 'integer', 'logical', 'character')

    def meta(self):
        o = ['[ %s ]' % self.local, '  standard_name = %s' % self.std]
        if self.units is not None and not self.isddt:
            o.append('  units = %s' % self.units)
        o.append('  dimensions = (%s)' % ', '.join(self.dims))
        o.append('  type = %s' % self.type)
        if self.kind:
            o.append('  kind = %s' % self.kind)
        if self.intent:
            o.append('  intent = %s' % self.intent)
        if self.optional:
            o.append('  optional = True')
        if self.active:
            o.append('  active = %s' % self.active)
        if self.top is not None:
            o.append('  top_at_one = %s' % self.top)
        o += ['  ' + x for x in self.extra]
        return o

    def ftype(self):
        if self.isddt:
            return 'type(%s)' % self.type
        if self.kind:
            return '%s(%s)' % (self.type, self.kind)
        return self.type


ERR = lambda: [V('errmsg', 'ccpp_error_message', 'none', 'character', 'len=512', intent='out'),
               V('errflg', 'ccpp_error_code', '1', 'integer', intent='out')]


class Ddt:
    def __init__(self, name, vars):
        self.name = name
        self.vars = vars


class Mod:
    """Host module table (its Fortran module holds the ddts it lists)."""
    def __init__(self, name, vars, ddts=(), uses=()):
        self.name = name
        self.vars = vars
        self.ddts = list(ddts)
        self.uses = list(uses)      # other host modules (for their ddts)


PHASES = ('register', 'initialize', 'timestep_initial', 'run', 'timestep_final', 'finalize')
SUFFIX = {'register': 'register', 'initialize': 'init', 'timestep_initial': 'timestep_init', 'run': 'run',
          'timestep_final': 'timestep_final', 'finalize': 'finalize'}


class Scheme:
    def __init__(self, name, entries, ddts=(), uses=(), suffix=None, module=None):
        self.name = name
        self.entries = entries      # phase -> list of V (without error variables unless given)
        self.ddts = list(ddts)
        self.uses = list(uses)
        self.suffix = dict(SUFFIX, **(suffix or {}))
        self.module = module or name

    def proc(self, phase):
        return '%s_%s' % (self.name, self.suffix[phase])

    def args(self, phase):
        a = list(self.entries[phase])
        if not any(v.std == 'ccpp_error_code' for v in a):
            a += ERR()
        return a


class Sub:
    """A subcycle, or (without a loop) a time_split element."""

    def __init__(self, loop, items):
        self.loop = loop
        self.items = list(items)


class Suite:
    def __init__(self, name, groups):
        self.name = name
        self.groups = groups        # list of (name, items)


def flat(items):
    for it in items:
        if isinstance(it, Sub):
            for x in flat(it.items):
                yield x
        else:
            yield it


class Spec:
    def __init__(self, name, mods, schemes, suites, host_vars=None, ctl_extra=(), flags=(), sizes=None, values=None,
                 props=(), scheme_order=None, host_ddts=(), notes=''):
        self.name = name
        self.host = 'test_host'
        self.mods = mods
        self.schemes = {s.name: s for s in schemes}
        self.scheme_order = scheme_order or [s.name for s in schemes]
        self.suites = suites
        self.flags = list(flags)
        self.sizes = sizes or {}
        self.values = values or {}
        self.props = set(props)
        self.notes = notes
        if host_vars is None:
            host_vars = [V('col_start', 'horizontal_loop_begin', 'count', 'integer', extra=['protected = True']),
                         V('col_end', 'horizontal_loop_end', 'count', 'integer', extra=['protected = True'])] + list(ctl_extra) + \
                        [V('errmsg', 'ccpp_error_message', 'none', 'character', 'len=512'),
                         V('errflg', 'ccpp_error_code', '1', 'integer')]
        self.host_vars = host_vars
        self.ddts = {}
        for m in mods:
            for d in m.ddts:
                self.ddts[d.name] = (d, m.name)
        for s in schemes:
            for d in s.ddts:
                self.ddts[d.name] = (d, s.module)

    # ------------------------------------------------------------- emission
    def emit(self, dirn, strict=True):
        os.makedirs(dirn, exist_ok=True)
        files = {}
        for m in self.mods:
            meta = []
            for d in m.ddts:
                meta += self.table(d.name, 'ddt', [(d.name, d.vars)])
            if m.vars is not None:
                meta += self.table(m.name, 'module', [(m.name, m.vars)])
            files[m.name + '.meta'] = meta
            files[m.name + '.F90'] = self.host_module(m)
        files[self.host + '.meta'] = self.table(self.host, 'host', [(self.host, self.host_vars)])
        files[self.host + '.F90'] = self.host_prog()
        for n in self.scheme_order:
            s = self.schemes[n]
            meta = []
            for d in s.ddts:
                meta += self.table(d.name, 'ddt', [(d.name, d.vars)])
            meta += self.table(s.name, 'scheme', [(s.proc(p), s.args(p)) for p in s.entries])
            files[s.module + '.meta'] = meta
            files[s.module + '.F90'] = self.scheme_f90(s)
        for su in self.suites:
            files['suite_%s.xml' % su.name] = self.xml(su)
        types = sorted({u for s in self.schemes.values() for u in s.uses if u in [m.name for m in self.mods]})
        files['schemes.txt'] = [u + '.meta' for u in types] + [self.schemes[n].module + '.meta' for n in self.scheme_order]
        for fn, lines in files.items():
            with open(os.path.join(dirn, fn), 'w') as f:
                f.write('\n'.join(lines) + '\n')
        return files

    tlines = alines = {}        # more lines of the table properties (by table) and of the argument tables (by name)

    def table(self, name, typ, sections):
        o = ['[ccpp-table-properties]', '  name = ' + name, '  type = ' + typ] + list(self.tlines.get(name, ()))
        for nm, vs in sections:
            o += ['[ccpp-arg-table]', '  name = ' + nm, '  type = ' + typ] + list(self.alines.get(nm, ()))
            for v in vs:
                o += v.meta()
        return o

    def host_names(self):
        return [m.name + '.meta' for m in self.mods] + [self.host + '.meta']

    def fdecl(self, v, comp=False):
        dims = ''
        attr = ''
        nd = len(v.dims)
        if nd:
            if v.fdims:
                dims = '(%s)' % ','.join(v.fdims)
            elif v.falloc is False:
                raise ValueError("explicit dims needed")
            else:
                attr = ', allocatable'
                dims = '(%s)' % ','.join([':'] * nd)
        elif v.falloc:
            attr = ', allocatable'
        if v.init is not None and not comp:
            dims += ' = ' + v.init
        return '%s%s :: %s%s' % (v.ftype(), attr, v.base, dims)

    def ddt_def(self, d):
        o = ['  !> \\section arg_table_%s  Argument Table' % d.name, '  !! \\htmlinclude arg_table_%s.html' % d.name,
             '  type %s' % d.name]
        seen = set()
        for v in d.vars:
            if v.base in seen or v.noemit:
                continue
            seen.add(v.base)
            o.append('    ' + self.fdecl(v, True))
        return o + ['  end type %s' % d.name]

    def host_module(self, m):
        o = ['module ' + m.name, '  use ccpp_kinds']
        for u in m.uses:
            o.append('  use ' + u)
        o += ['  implicit none', '  public']
        for d in m.ddts:
            o += self.ddt_def(d)
        o += ['  !> \\section arg_table_%s  Argument Table' % m.name, '  !! \\htmlinclude arg_table_%s.html' % m.name]
        seen = set()
        for v in (m.vars or ()):
            if v.base in seen or v.noemit:
                continue
            seen.add(v.base)
            o.append('  ' + self.fdecl(v))
        return o + ['end module ' + m.name]

    def host_prog(self):
        return ['module %s_dummy' % self.host, '  implicit none', 'contains', '  !> \\section arg_table_%s  Argument Table' % self.host,
                '  !! \\htmlinclude arg_table_%s.html' % self.host,
                '  subroutine %s()' % self.host, '  end subroutine', 'end module']

    def scheme_decl(self, a):
        dims = '(%s)' % ','.join([':'] * len(a.dims)) if a.dims else ''
        if 'allocatable = True' in a.extra:
            return '%s, allocatable, intent(%s)%s :: %s%s' % (a.ftype(), a.intent, ', optional' if a.optional else '', a.local, dims)
        return '%s, intent(%s)%s :: %s%s' % (a.ftype(), a.intent, ', optional' if a.optional else '', a.local, dims)

    def scheme_uses(self, s):
        mods = set(s.uses)
        for p in s.entries:
            for a in s.args(p):
                if a.isddt and a.type in self.ddts and self.ddts[a.type][1] != s.module:
                    mods.add(self.ddts[a.type][1])
                if a.isddt and a.type == 'ccpp_constituent_properties_t':
                    mods.add('ccpp_constituent_prop_mod')
        return sorted(mods)

    def scheme_f90(self, s, body=None):
        o = ['module ' + s.module, '  use ccpp_kinds']
        for u in self.scheme_uses(s):
            o.append('  use ' + u + (', only: ' + ', '.join(sorted({a.type for p in s.entries for a in s.args(p)
                                                                   if a.isddt and self.ddts.get(a.type, (0, u))[1] == u}))))
        o += ['  implicit none', '  private']
        for d in s.ddts:
            o.append('  public :: ' + d.name)
        for p in s.entries:
            o.append('  public :: ' + s.proc(p))
        for d in s.ddts:
            o += self.ddt_def(d)
        o.append('contains')
        for p in s.entries:
            nm = s.proc(p)
            args = s.args(p)
            o += ['  !> \\section arg_table_%s  Argument Table' % nm, '  !! \\htmlinclude arg_table_%s.html' % nm,
                  '  subroutine %s(%s)' % (nm, ', &\n       '.join(a.local for a in args))]
            for a in args:
                o.append('    ' + self.scheme_decl(a))
            if body:
                o += body(s, p, args)
            else:
                o += ["    errmsg = ''", '    errflg = 0'] if any(a.local == 'errflg' for a in args) else []
            o.append('  end subroutine ' + nm)
        o.append('end module ' + s.module)
        return o

    def xml(self, su):
        o = ['<?xml version="1.0" encoding="UTF-8"?>', '<suite name="%s" version="1.0">' % su.name]

        def items(its, ind):
            for it in its:
                if isinstance(it, Sub):
                    tag = 'subcycle' if it.loop else 'time_split'
                    o.append('%s<%s%s>' % (ind, tag, ' loop="%s"' % it.loop if it.loop else ''))
                    items(it.items, ind + '  ')
                    o.append('%s</%s>' % (ind, tag))
                else:
                    o.append('%s<scheme>%s</scheme>' % (ind, it))
        for g, its in su.groups:
            o.append('  <group name="%s">' % g)
            items(its, '    ')
            o.append('  </group>')
        o.append('</suite>')
        return o

    # ------------------------------------------------------------- lookup
    def allvars(self):
        for m in self.mods:
            for v in (m.vars or ()):
                yield v
        for v in self.host_vars:
            yield v
        for d, _ in self.ddts.values():
            for v in d.vars:
                yield v

    def host_paths(self):
        """std -> (V, path) where path = [('mod', module, base)|('ctl', base), ('comp', base)..., ('index', spec)...]."""
        out = {}

        def add(v, path):
            m = re.match(r'^(\w+)\((.*)\)$', v.local)
            p = path
            if m:
                p = p[:-1] + [p[-1][:-1] + (m.group(1),), ('index', [x.strip() for x in m.group(2).split(',')])]
            if v.std not in out:
                out[v.std] = (v, p)
            if v.isddt and v.type in self.ddts and not v.dims:
                for c in self.ddts[v.type][0].vars:
                    add(c, p + [('comp', c.local)])
        for m in self.mods:
            for v in (m.vars or ()):
                add(v, [('mod', m.name, v.local)])
        for v in self.host_vars:
            add(v, [('ctl', v.local)])
        return out

    def vertical(self, scheme):
        """The vertical dimension over which the scheme has to be called in the run phase, if any."""
        args = [a for s in self.schemes.values() for e in s.entries.values() for a in e]
        for a in self.schemes[scheme].entries['run']:
            if a.dims and not any('vertical' in d for d in a.dims):
                for v in [v for v in self.allvars() if v.std == a.std] or [x for x in args if x.std == a.std]:
                    for d in v.dims:
                        if 'vertical' in d:
                            return d
        return None

    def one_group(self, suite, std):
        """Is std an argument in a single group (or a single other phase) of the suite?"""
        users = set()
        for g, its in suite.groups:
            for s in flat(its):
                for ph in self.schemes[s].entries:
                    if any(a.std == std for a in self.schemes[s].args(ph)):
                        users.add(g if ph == 'run' else ph + '*')
        return len(users) == 1

    def sched(self, suite):
        """Unique scheme names of a suite in suite definition order."""
        seen = []
        for g, its in suite.groups:
            for s in flat(its):
                if s not in seen:
                    seen.append(s)
        return seen
