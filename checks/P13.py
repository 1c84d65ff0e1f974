"""P13: metadata that disagrees with the Fortran source is rejected, and only that."""
import re

from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.files import files
from vt.pysym.gen import Log, subst
from vt.pysym.sym import text, char, mk, chs, same, streq, S_islower
from vt.pysym.grammar import conj, disj, neg, implies
from vt.engine import cur

H = 'horizontal_dimension'
OKEXC = ('ParseSyntaxError', 'CCPPError', 'ParseInternalError')


def env_():
    return module('framework_env').CCPPFrameworkEnv(Log(), ndict={'host_files': '', 'scheme_files': '', 'suites': '', 'host_name': 'h'})


def low(s):
    return s.lower()


class Arg:
    def __init__(self, name, type='real', kind='kind_phys', intent='in', rank=0, optional=False):
        self.name, self.type, self.kind, self.intent, self.rank, self.optional = name, type, kind, intent, rank, optional

    def meta(self, i):
        o = ['[ %s ]' % self.name, '  standard_name = std_%d' % i]
        if self.type != 'ty_a' and self.type != 'ty_b':
            o.append('  units = 1')
        o += ['  dimensions = (%s)' % ', '.join('dim_%d' % k for k in range(self.rank)), '  type = ' + self.type]
        if self.kind:
            o.append('  kind = ' + self.kind)
        if self.intent:
            o.append('  intent = ' + self.intent)
        if self.optional:
            o.append('  optional = True')
        return o

    def fort(self, style=0):
        t = 'type(%s)' % self.type if self.type[:3] == 'ty_' else self.type
        if self.kind:
            t += '(%s)' % self.kind if style & 1 or self.type == 'character' else '(kind=%s)' % self.kind
        dims = '(%s)' % ','.join(':' * self.rank) if self.rank else ''
        if style & 2 and dims:
            t += ', dimension' + dims
            dims = ''
        if self.intent:
            t += ', intent(%s)' % self.intent
        if self.optional:
            t += ', optional'
        return '    %s :: %s%s' % (t, self.name, dims)


ERRS = [Arg('errmsg', 'character', 'len=512', 'out'), Arg('errflg', 'integer', None, 'out')]


def meta_table(name, sections, typ='scheme'):
    o = ['[ccpp-table-properties]', '  name = ' + name, '  type = ' + typ]
    for nm, args in sections:
        o += ['[ccpp-arg-table]', '  name = ' + nm, '  type = ' + typ]
        for i, a in enumerate(args):
            if a.name == 'errmsg':
                o += ['[ errmsg ]', '  standard_name = ccpp_error_message', '  units = none', '  dimensions = ()', '  type = character', '  kind = len=512', '  intent = out']
            elif a.name == 'errflg':
                o += ['[ errflg ]', '  standard_name = ccpp_error_code', '  units = 1', '  dimensions = ()', '  type = integer', '  intent = out']
            else:
                o += a.meta(i)
    return o


def source(mod, routines, style=0, table=True):
    o = ['module ' + mod, '  use ccpp_kinds', '  implicit none', 'contains']
    for nm, args in routines:
        o += ['  !> \\section arg_table_%s Argument Table' % nm, '  !! \\htmlinclude arg_table_%s.html' % nm] if table else []
        o += ['  subroutine %s(%s)' % (nm, ', '.join(a.name for a in args))]
        o += [a.fort(style) for a in args]
        o += ['  end subroutine ' + nm]
    return o + ['end module ' + mod]


def types():
    meta, fort = [], ['module t', '  use ccpp_kinds', '  implicit none']
    for n in ('ty_a', 'ty_b'):
        meta += meta_table(n, [(n, [Arg('c', intent=None)])], 'ddt')
        fort += ['  !> \\section arg_table_%s Argument Table' % n, '  !! \\htmlinclude arg_table_%s.html' % n, '  type ' + n, '    real(kind_phys) :: c', '  end type ' + n]
    return {'t.meta': meta}, {'t.F90': fort + ['end module t']}


def read(meta, fort, sub, host=False):
    """What the generator says of these files (name -> lines)."""
    cg, mt, pf = module('ccpp_capgen'), module('metadata_table'), module('parse_fortran_file')
    reg = module('parse_tools').register_fortran_ddt_name
    for t in ('ty_a', 'ty_b'):
        reg(t)
    table = {n: [subst(x, sub) for x in lines] for n, lines in list(meta.items()) + list(fort.items())}
    saved = cg.__dict__['find_associated_fortran_file']
    cg.find_associated_fortran_file = lambda f: f[:-5] + '.F90'
    import os
    real = os.path.exists
    os.path.exists = lambda p: p in table or real(p)
    try:
        with files([mt, pf], table):
            if host:
                return outcome(cg.parse_host_model_files, list(meta), 'h', env_())
            return outcome(cg.parse_scheme_files, list(meta), env_())
    finally:
        os.path.exists = real
        cg.__dict__['find_associated_fortran_file'] = saved


def verdict(o, agrees, differs, label):
    return [(o.ok or o.exc in OKEXC, '%s: crashed with %s' % (label, o.exc)), (implies(differs, not o.ok), '%s: accepted' % label),
            (implies(agrees, o.ok), '%s: rejected' % label)]


class Attributes(Harness):
    """One argument of a scheme, described by metadata and by its declaration."""
    functions = ('parse_scheme_files', 'check_fortran_against_metadata', 'compare_fheader_to_mheader', 'find_var_in_list', 'var_comp', 'dims_comp', 'parse_fortran_file',
                 'parse_scheme_metadata', 'parse_fortran_var_decl', 'ftype_factory', 'Ftype.*', 'FtypeCharacter.*', 'FtypeTypeDecl.*', 'FortranVar', 'parse_metadata_file')
    bounds = ('an argument at the first, second or third place of a routine of up to five: type (five intrinsic, two derived), kind with one symbolic character, intent, rank 0-3 '
              'and optional on both sides, four styles of declaration')
    budget = 700
    TYPES = ('real', 'integer', 'logical', 'character', 'ty_a', 'ty_b', 'complex')

    def cases(self, tier):
        out = []
        for pos in (0, 1, 2):
            out += [dict(pos=pos, what='type'), dict(pos=pos, what='kind'), dict(pos=pos, what='intent'), dict(pos=pos, what='rank'), dict(pos=pos, what='len')]
        return out

    def inputs(self, case, eng):
        w = case['what']
        d = dict(style=eng.choose(4) if w in ('rank', 'kind') else 0)
        for s in 'mf':
            d['type' + s] = eng.pick(list(self.TYPES)) if w == 'type' else 'character' if w == 'len' else eng.pick(['real', 'integer', 'logical']) if w == 'kind' and s == 'm' else 'real'
            d['kind' + s] = 'kind_phys'
            if w == 'kind':
                d['kind' + s] = eng.pick(['', 'x'])
                if d['kind' + s]:
                    d['kind' + s] = mk(list('kind_') + chs(text('k' + s, 1, 'abAB')))
            if w == 'len':
                d['kind' + s] = mk(list('len=') + chs(text('k' + s, 1, '*58')))
            d['intent' + s] = eng.pick(['in', 'out', 'inout']) if w == 'intent' else 'in'
            d['rank' + s] = eng.choose(4) if w == 'rank' else 0
            d['opt' + s] = eng.choose(2) if w in ('intent', 'rank') else 0
        if w == 'kind':
            d['typef'] = d['typem']
        return d

    def agree(self, case, inp):
        def arg(s):
            t = inp['type' + s]
            k = inp['kind' + s]
            if case['what'] == 'type':
                k = {'real': 'kind_phys', 'character': 'len=512', 'complex': 'kind_phys'}.get(t)
            elif k:
                k = '<kind%s>' % s
            return Arg('a', t, k, inp['intent' + s], inp['rank' + s], bool(inp['opt' + s]))
        m, f = arg('m'), arg('f')

        def args(a):
            x = [Arg('x', 'integer', None), Arg('y', 'integer', None)]
            return x[:case['pos']] + [a] + x[case['pos']:] + ERRS
        me, fo = types() if case['what'] == 'type' else ({}, {})
        o = read(dict(me, **{'s.meta': meta_table('s', [('s_run', args(m))])}), dict(fo, **{'s.F90': source('s', [('s_run', args(f))], inp['style'])}), inp)
        km, kf = inp['kindm'], inp['kindf']
        if m.type == 'real':    # an undeclared kind of a real is taken for kind_phys
            km, kf = km or 'kind_phys', kf or 'kind_phys'
        ok = conj(m.type == f.type, m.intent == f.intent, m.rank == f.rank, m.optional == f.optional, case['what'] == 'type' or streq(low(km), low(kf)))
        return verdict(o, ok, neg(ok), '%s at place %d' % (case['what'], case['pos']))


FORMS = {
    'names': (['real(kind_phys), intent(in) :: a, b(:)'], [('a', 'real', 0, 'in', 0), ('b', 'real', 1, 'in', 0)]),
    'dimension': (['real(kind_phys), dimension(:), intent(in) :: a, b(:,:)'], [('a', 'real', 1, 'in', 0), ('b', 'real', 2, 'in', 0)]),
    'dimension override': (['real(kind_phys), intent(in), dimension(:) :: a, b(:,:), c', 'integer, intent(in), dimension(:,:) :: d(:), e'],
                           [('a', 'real', 1, 'in', 0), ('b', 'real', 2, 'in', 0), ('c', 'real', 1, 'in', 0), ('d', 'integer', 1, 'in', 0), ('e', 'integer', 2, 'in', 0)]),
    'dimension last': (['logical, intent(out), dimension( : , : ) :: a', 'integer,intent(in)::b'], [('a', 'logical', 2, 'out', 0), ('b', 'integer', 0, 'in', 0)]),
    'blanks': (['real ( kind = kind_phys ) , intent ( inout ) :: a ( : , : )'], [('a', 'real', 2, 'inout', 0)]),
    'optional': (['real(kind_phys), optional, intent(inout), target :: a(:)', 'integer, intent(in), optional :: b'], [('a', 'real', 1, 'inout', 1), ('b', 'integer', 0, 'in', 1)]),
    'explicit': (['integer, intent(in) :: a', 'real(kind_phys), intent(in) :: b(a), c(1:a,a)'], [('a', 'integer', 0, 'in', 0), ('b', 'real', 1, 'in', 0), ('c', 'real', 2, 'in', 0)]),
    'assumed': (['real(kind_phys), intent(in) :: a(0:), b(:,:)'], [('a', 'real', 1, 'in', 0), ('b', 'real', 2, 'in', 0)]),
    'comment': (['integer, intent(in) :: a ! , b(:)', '! integer, intent(in) :: a(:)', 'real(kind_phys), intent(in) :: b !(:)'], [('a', 'integer', 0, 'in', 0), ('b', 'real', 0, 'in', 0)]),
    'semicolon': (['integer, intent(in) :: a; integer, intent(out) :: b(:)'], [('a', 'integer', 0, 'in', 0), ('b', 'integer', 1, 'out', 0)]),
    'other order': (['integer, intent(out) :: b(:)', 'real(kind_phys), intent(in) :: a'], [('a', 'real', 0, 'in', 0), ('b', 'integer', 1, 'out', 0)]),
    'locals': (['integer, intent(in) :: a', 'integer :: b', 'real(kind_phys), allocatable :: work(:)', 'logical, save :: first = .true.'], [('a', 'integer', 0, 'in', 0)]),
    'continued': (['real(kind_phys), &', '  intent(in) &', '  :: a(:), &', '  b'], [('a', 'real', 1, 'in', 0), ('b', 'real', 0, 'in', 0)]),
    'type': (['type(ty_a), intent(inout) :: a', 'type ( ty_b ), intent(in) :: b(:)'], [('a', 'ty_a', 0, 'inout', 0), ('b', 'ty_b', 1, 'in', 0)]),
}


class Forms(Harness):
    """The syntactic forms of declarations, each against every rank, intent and optionality in the metadata."""
    functions = Attributes.functions
    bounds = 'the listed declarations, lower, upper or mixed case (names of derived types as in the metadata); each argument in turn with any rank up to 3, any intent, optional or not, one of its alternative types in the metadata'
    budget = 700

    def cases(self, tier):
        return [dict(form=k, arg=i) for k, (_, a) in FORMS.items() for i in range(len(a))]

    def inputs(self, case, eng):
        t = FORMS[case['form']][1][case['arg']][1]
        return dict(case=eng.choose(3), rank=eng.choose(4), intent=eng.pick(['in', 'out', 'inout']), opt=eng.choose(2), type=eng.pick([t, 'integer' if t == 'real' else 'real']))

    def agree(self, case, inp):
        lines, want = FORMS[case['form']]
        change = (str, str.upper, str.title)[inp['case']]
        up = lambda x: re.sub(r'(?i)\bty_[ab]\b', lambda m: m.group(0).lower(), change(x))
        dummies = [w[0] for w in want]
        me, fo = types()
        margs = [Arg(n, t, 'kind_phys' if t == 'real' else None, i, r, bool(o)) for n, t, r, i, o in want]
        x = margs[case['arg']]
        x.rank, x.intent, x.optional, x.type = inp['rank'], inp['intent'], bool(inp['opt']), inp['type']
        x.kind = 'kind_phys' if x.type == 'real' else None
        fort = ['module s', '  use ccpp_kinds', '  implicit none', 'contains', '  !> \\section arg_table_s_run Argument Table', '  !! \\htmlinclude arg_table_s_run.html',
                '  ' + up('subroutine') + ' s_run(%s)' % ', '.join(dummies + ['errmsg', 'errflg'])] + ['    ' + up(l) for l in lines] + [a.fort() for a in ERRS] + \
            ['  ' + up('end subroutine') + ' s_run', 'end module s']
        o = read(dict(me, **{'s.meta': meta_table('s', [('s_run', margs + ERRS)])}), dict(fo, **{'s.F90': fort}), {})
        n, t, r, i, op = want[case['arg']]
        ok = (t, r, i, op) == (inp['type'], inp['rank'], inp['intent'], inp['opt'])
        return verdict(o, ok, not ok, '%s, argument %s' % (case['form'], n))


class Lists(Harness):
    """The argument lists of a routine on both sides."""
    functions = Attributes.functions
    bounds = ('up to two (thorough three) arguments on either side, of two types, besides the error arguments; names with one symbolic character in either case, optional on either side '
              '(an optional dummy argument may be missing from the metadata)')
    budget = 700

    def cases(self, tier):
        n = 2 if tier == 'quick' else 3
        return [dict(m=i, f=j, opt=o) for i in range(n + 1) for j in range(n + 1) for o in (0, 1) if i + j and (not o or i + j < 6)]

    def inputs(self, case, eng):
        d = {}
        for s in 'mf':
            for i in range(case[s]):
                d['n%s%d' % (s, i)] = mk(list('v') + chs(text('n%s%d' % (s, i), 1, 'abB' if max(case['m'], case['f']) < 3 else 'abcC')))
                for j in range(i):
                    eng.assume(neg(same(d['n%s%d' % (s, i)].lower(), d['n%s%d' % (s, j)].lower())))
                d['o%s%d' % (s, i)] = eng.choose(2) if case['opt'] else 0
        return d

    def agree(self, case, inp):
        def args(s):
            return [Arg('<n%s%d>' % (s, i), 'real', 'kind_phys', 'in', 0, bool(inp['o%s%d' % (s, i)])) for i in range(case[s])]
        o = read({'s.meta': meta_table('s', [('s_run', args('m') + ERRS)])}, {'s.F90': source('s', [('s_run', args('f') + ERRS)])}, inp)
        nm, nf = ([(inp['n%s%d' % (s, i)].lower(), inp['o%s%d' % (s, i)]) for i in range(case[s])] for s in 'mf')
        equal = len(nm) == len(nf) and conj(*[conj(same(a, b), x == y) for (a, x), (b, y) in zip(nm, nf)])
        # the metadata without some optional dummy arguments
        import itertools
        part = False
        for keep in itertools.product((0, 1), repeat=len(nf)):
            if all(k or x for k, (_, x) in zip(keep, nf)):
                left = [y for k, y in zip(keep, nf) if k]
                if len(left) == len(nm):
                    part = disj(part, conj(*[conj(same(a, b), x == y) for (a, x), (b, y) in zip(nm, left)]))
        return verdict(o, equal, neg(part), '%d arguments, %d declared' % (case['m'], case['f']))


class Tables(Harness):
    """A module table or derived type: any order, more variables in the source, references to array sections in the metadata."""
    functions = ('parse_host_model_files', 'check_fortran_against_metadata', 'compare_fheader_to_mheader', 'parse_preamble_data', 'parse_type_def', 'parse_fortran_var_decl')
    bounds = ('up to two variables and up to two array references in the metadata, up to three in the source, in any order; names, kinds (one symbolic character), types and ranks; '
              'module tables and derived types')
    budget = 700

    def cases(self, tier):
        out = []
        for typ in ('module', 'ddt'):
            for m in (1, 2):
                for f in (1, 2, 3):
                    for refs in ((), (0,), (0, 0), (1,)):
                        if tier == 'quick' and (f == 3 and refs or f == 3 and m == 1):
                            continue
                        out.append(dict(typ=typ, m=m, f=f, refs=list(refs)))
        return out

    def inputs(self, case, eng):
        d = {}
        for s in 'mf':
            for i in range(case[s]):
                k = '%s%d' % (s, i)
                d['n' + k] = mk(list('v') + chs(text('n' + k, 1, 'abB' if s == 'm' else 'abc')))
                for j in range(i):
                    eng.assume(neg(same(d['n' + k].lower(), d['n%s%d' % (s, j)].lower())))
                d['k' + k] = mk(list('kind_') + chs(text('k' + k, 1, 'ab')))
                last = i == case[s] - 1
                d['t' + k] = eng.pick(['real', 'integer']) if last else 'real'
                d['r' + k] = eng.choose(2) if last else 0
        return d

    def agree(self, case, inp):
        def args(s):
            return [Arg('<n%s%d>' % (s, i), inp['t%s%d' % (s, i)], '<k%s%d>' % (s, i), None, inp['r%s%d' % (s, i)]) for i in range(case[s])]
        typ = case['typ']
        m = args('m')
        for n, at in enumerate(case['refs']):
            m.insert(at, Arg('arr(:,%d)' % (n + 1), 'real', 'kind_phys', None, 1))
        decl = [a.fort() for a in args('f')] + (['    real(kind_phys) :: arr(4,2)'] if case['refs'] else [])
        name = 'md' if typ == 'module' else 'd_t'
        tab = ['  !> \\section arg_table_%s Argument Table' % name, '  !! \\htmlinclude arg_table_%s.html' % name]
        fort = ['module md', '  use ccpp_kinds', '  implicit none']
        fort += tab + (['  type d_t'] + decl + ['  end type d_t'] if typ == 'ddt' else decl) + ['end module md']
        o = read({'md.meta': meta_table(name, [(name, m)], typ)}, {'md.F90': fort}, inp, host=True)

        def side(s):
            return [tuple(inp[x + '%s%d' % (s, i)] for x in 'ntkr') for i in range(case[s])]
        agrees = True
        for n, t, k, r in side('m'):
            agrees = conj(agrees, disj(*[conj(same(n.lower(), n2.lower()), t == t2, same(k, k2), r == r2) for n2, t2, k2, r2 in side('f')]))
        return verdict(o, agrees, neg(agrees), '%s with %d variables, %d declared' % (typ, case['m'], case['f']))


class Routines(Harness):
    """Which routines and tables exist on either side."""
    functions = ('parse_scheme_files', 'check_fortran_against_metadata', 'duplicate_item_error', 'parse_module')
    bounds = 'up to three entry points of a scheme on either side, with matching or other names (in either case), one or two files of schemes with the same or different names'
    budget = 700

    def cases(self, tier):
        return [dict(two=False), dict(two=True)]

    def inputs(self, case, eng):
        d = {}
        if case['two']:
            d['s1'] = mk(list('s') + chs(text('s1', 1, 'ab')))
            d['s2'] = mk(list('s') + chs(text('s2', 1, 'ab')))
            return d
        for ph in ('init', 'run', 'finalize'):
            for s in 'mf':
                d[s + ph] = eng.choose(2)
            d['c' + ph] = eng.pick(['s', 'S', 'r']) if ph == 'run' else 's'
        d['tab'] = eng.choose(2)
        return d

    def agree(self, case, inp):
        if case['two']:
            me, fo = {}, {}
            for i in '12':
                me['f%s.meta' % i] = meta_table('<s%s>' % i, [('<s%s>_run' % i, ERRS)])
                fo['f%s.F90' % i] = source('<s%s>' % i, [('<s%s>_run' % i, ERRS)])
            o = read(me, fo, inp)
            ok = neg(same(inp['s1'], inp['s2']))
            return verdict(o, ok, neg(ok), 'two files')
        phs = ('init', 'run', 'finalize')
        if not any(inp['m' + p] for p in phs):
            return [(True, 'no entry point')]
        m = [('s_' + p, ERRS) for p in phs if inp['m' + p]]
        f = [(inp['c' + p] + '_' + p, ERRS) for p in phs if inp['f' + p]]
        o = read({'s.meta': meta_table('s', m)}, {'s.F90': source('s', f, table=bool(inp['tab']))}, inp)
        want = [n for n, _ in m]
        got = [n.lower() for n, _ in f]
        if not inp['tab']:      # only routines with an argument table count
            return verdict(o, False, True, 'no argument tables')
        return verdict(o, want == got, want != got, 'entry points')


class Endings(Harness):
    """The statements that end routines, types and modules."""
    functions = ('parse_fortran_file', 'parse_module', 'parse_specification', 'parse_preamble_data', 'parse_type_def', 'parse_scheme_metadata', 'ParseObject.leave_region')
    bounds = ('end statements with and without a name and the blank, in three cases, with a comment or not; another routine or type not in any table; a second module after the first; '
              'a rank that agrees or not')
    budget = 700

    def cases(self, tier):
        return ['scheme', 'host', 'host with routines']

    def inputs(self, case, eng):
        return dict(form=eng.choose(4), change=eng.choose(3), comment=eng.choose(2), other=eng.choose(2), second=eng.choose(2), ddt=eng.choose(2) if case != 'scheme' else 0, rank=eng.choose(2))

    def agree(self, case, inp):
        change = (str, str.upper, str.title)[inp['change']]

        def end(what, name):
            t = ('end %s %s' % (what, name), 'end%s %s' % (what, name), 'end ' + what, 'end' + what)[inp['form']]
            return '  ' + change(t) + (' ! the end' if inp['comment'] else '')
        tab = lambda n: ['  !> \\section arg_table_%s Argument Table' % n, '  !! \\htmlinclude arg_table_%s.html' % n]
        a = Arg('a', rank=1, intent='in' if case == 'scheme' else None)
        b = Arg('a', rank=1 + inp['rank'], intent=a.intent)
        routine = lambda n, args: ['  subroutine %s(%s)' % (n, ', '.join(x.name for x in args))] + [x.fort() for x in args] + [end('subroutine', n)]
        src = ['module m', '  use ccpp_kinds', '  implicit none']
        if inp['other']:
            src += ['  type other_t', '    integer :: q', end('type', 'other_t')]
        if case == 'scheme':
            src += ['contains'] + (routine('helper', [Arg('x', 'integer', None)]) if inp['other'] else [])
            src += tab('m_run') + routine('m_run', [b] + ERRS) + tab('m_finalize') + routine('m_finalize', ERRS)
            meta = meta_table('m', [('m_run', [a] + ERRS), ('m_finalize', ERRS)])
        else:
            meta = []
            if inp['ddt']:
                src += tab('d_t') + ['  type d_t', '    integer :: k', end('type', 'd_t')]
                meta = meta_table('d_t', [('d_t', [Arg('k', 'integer', None, None)])], 'ddt')
            src += tab('m') + [b.fort()]
            meta += meta_table('m', [('m', [a])], 'module')
            if case != 'host':
                src += ['contains'] + routine('helper', [Arg('x', 'integer', None)])
        src.append(end('module', 'm'))
        if inp['second']:
            src += ['module zz', '  implicit none', '  integer :: i', 'contains'] + routine('q', [Arg('x', 'integer', None)]) + [end('module', 'zz')]
        o = read({'m.meta': meta}, {'m.F90': src}, {}, host=case != 'scheme')
        return verdict(o, not inp['rank'], bool(inp['rank']), case)


HARNESSES = dict(endings=Endings(), attributes=Attributes(), forms=Forms(), lists=Lists(), tables=Tables(), routines=Routines())


def main(tier, only=None):
    return pmain('P13', tier, 'model_checking', ['preprocessing and line joining are P15 and P16'], [], ['see the harnesses'], only)
