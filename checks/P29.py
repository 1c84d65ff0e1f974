"""P29: the prototype metadata written for a Fortran source describes exactly that source."""
import os

from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.files import files
from vt.pysym.gen import Log, subst
from vt.pysym.sym import text, mk, chs, same, streq
from vt.pysym.grammar import conj, disj, neg
from checks import P13
from checks.P13 import Arg, ERRS, OKEXC, FORMS, env_

FUNCS = ('parse_fortran_files', 'write_metadata_file', 'parse_fortran_file', 'parse_module', 'parse_specification', 'parse_preamble_data', 'parse_type_def', 'parse_scheme_metadata',
         'parse_fortran_var_decl', 'unique_standard_name', 'reset_standard_name_counter', 'Var.get_dimensions', 'parse_metadata_file', 'check_fortran_against_metadata')


def prototype(sources, known=()):
    """The metadata files written for these sources (name -> lines)."""
    m, pf = module('ccpp_fortran_to_metadata'), module('parse_fortran_file')
    for t in known:
        module('parse_tools').register_fortran_ddt_name(t)
    real = os.path.exists
    os.path.exists = lambda p: p in sources or real(p)
    try:
        with files([m, pf], sources) as f:
            o = outcome(m.parse_fortran_files, list(sources), env_(), '', '', Log())
    finally:
        os.path.exists = real
    return o, {os.path.basename(n): t.text().split('\n') for n, t in f.out.items()}


def understand(lines):
    """The tables in metadata text: [(name, type, [(name, type, [(variable, {attribute: value})])])]."""
    tables, here = [], None
    for line in lines:
        line = line.strip()
        if not line or line[0] in '#;':
            continue
        if line.startswith('['):
            what = line[1:-1].strip()
            if what == 'ccpp-table-properties':
                tables.append([{}, []])
                here = tables[-1][0]
            elif what == 'ccpp-arg-table':
                tables[-1][1].append([{}, []])
                here = tables[-1][1][-1][0]
            else:
                here = {}
                tables[-1][1][-1][1].append((what, here))
            continue
        for part in line.split('|'):
            k = part.find('=')
            here[str(part[:k].strip())] = part[k + 1:].strip()
    return tables


def eq(a, b):
    """Equal but for the case of letters (None only with None)."""
    if a is None or b is None:
        return a is None and b is None
    return streq(mk(chs(a)).lower(), mk(chs(b)).lower())


def faults(tables, want, label):
    """Check the tables against [(name, type, [(name, [Arg])])]."""
    out = [(len(tables) == len(want), '%s: tables' % label)]
    names, bounds, later = [], [], {}
    for (props, secs), (tn, tt, wsecs) in zip(tables, want):
        out.append((conj(eq(props.get('name'), tn), eq(props.get('type'), tt)), '%s: name and type of a table' % label))
        out.append((len(secs) == len(wsecs), '%s: sections of a table' % label))
        for (sp, vs), (sn, args) in zip(secs, wsecs):
            out.append((conj(eq(sp.get('name'), sn), eq(sp.get('type'), tt)), '%s: name and type of a section' % label))
            out.append((conj(len(vs) == len(args), *[eq(v[0], a.name) for v, a in zip(vs, args)]), '%s: the variables and their order' % label))
            if len(vs) != len(args):
                continue
            std = []
            for (_, v), a in zip(vs, args):
                kind = a.kind
                got = v.get('kind')
                out += [(eq(v.get('type'), a.type), '%s: type' % label),
                        (eq(got, kind), '%s: kind' % label),
                        (eq(v.get('intent'), a.intent if tt == 'scheme' else None), '%s: intent' % label)]
                opt = v.get('optional')
                out.append(((opt is not None and str(opt).lower() in ('true', '.true.', 't')) == bool(a.optional), '%s: optional' % label))
                dims = v.get('dimensions')
                inner = [d.strip() for d in dims.strip()[1:-1].split(',')] if dims is not None else []
                inner = [d for d in inner if d]
                out.append((len(inner) == a.rank, '%s: rank' % label))
                ref = getattr(a, 'dims', None)
                if ref and len(inner) == a.rank:
                    for d, r in zip(inner, ref):
                        lo, _, hi = ('', '', d) if ':' not in d else d.partition(':')
                        wlo, _, whi = ('', '', r) if ':' not in r else r.partition(':')
                        bounds += [(x, w, [y for n, y in std if n == w], sn, label) for x, w in ((lo, wlo), (hi, whi)) if w]
                s = v.get('standard_name')
                out.append((bool(s) and v.get('units') is not None, '%s: placeholders' % label))
                std.append((a.name if isinstance(a.name, str) else None, s))
                names.append(s)
                if isinstance(a.name, str):
                    later[sn, a.name] = s
    for x, w, known, sn, label in bounds:
        if w == '1':
            out.append((eq(x, 'ccpp_constant_one'), '%s: a bound of one' % label))
        elif known:
            out.append((eq(x, known[0]), '%s: a dimension that is an argument' % label))
        else:   # a number, or an argument that comes later
            out.append((bool(x) and conj(*[neg(eq(x, s)) for s in names if s is not later.get((sn, w))]), '%s: a bound that is no argument' % label))
    out.append((conj(*[neg(eq(a, b)) for i, a in enumerate(names) for b in names[:i]]), '%s: one standard name for two variables' % label))
    return out


def accepted(meta, fort, host, label, more=(), sub=None):
    me, fo = P13.types() if more else ({}, {})
    sub = sub or {}
    o = P13.read(dict(me, **meta), dict(fo, **fort), sub, host=host)
    return (o.ok, '%s: the prototype is rejected by capgen' % label)


TAB = lambda n: ['  !> \\section arg_table_%s Argument Table' % n, '  !! \\htmlinclude arg_table_%s.html' % n]


class Args(Harness):
    """The dummy arguments of a scheme's routine."""
    functions = FUNCS
    bounds = ('one to three arguments besides the error arguments; one of them with a symbolic character in its name and one in its kind (either case), five intrinsic and two derived types, '
              'intent, rank 0-3, optional, four styles of declaration')
    budget = 700

    def cases(self, tier):
        return [dict(n=n, at=k, what=w) for n in (1, 2, 3) for k in range(n) for w in ('name', 'type', 'attributes') if tier == 'thorough' or n < 3 or k == 1]

    def inputs(self, case, eng):
        w = case['what']
        d = dict(style=eng.choose(4) if w != 'name' else 0)
        d['name'] = mk(list('v') + chs(text('n', 2, 'aB9_'))) if w == 'name' else 'v'
        d['type'] = eng.pick(['real', 'integer', 'logical', 'character', 'complex', 'ty_a', 'ty_b']) if w == 'type' else eng.pick(['real', 'integer']) if w == 'name' else 'real'
        d['kind'] = ''
        if d['type'] == 'character':
            d['kind'] = mk(list('len=') + chs(text('k', 1, '*58')))
        elif d['type'][:3] != 'ty_' and (d['type'] in ('real', 'complex') or eng.choose(2)):
            d['kind'] = mk(list('kind_') + chs(text('k', 2, 'aB1')))
        d['intent'] = eng.pick(['in', 'out', 'inout']) if w == 'attributes' else 'in'
        d['rank'] = eng.choose(4) if w == 'attributes' else 0
        d['optional'] = eng.choose(2) if w == 'attributes' else 0
        return d

    def agree(self, case, inp):
        def args(form):
            a = Arg('<name>' if form else inp['name'], inp['type'], ('<kind>' if form else inp['kind']) if inp['kind'] else None, inp['intent'], inp['rank'], bool(inp['optional']))
            o = [Arg('x', 'integer', None), Arg('y', 'real', 'kind_phys', 'out', 1)][:case['n'] - 1]
            return o[:case['at']] + [a] + o[case['at']:] + ERRS
        src = P13.source('s', [('s_run', args(True))], inp['style'])
        fort = {'s.F90': [subst(x, inp) for x in src]}
        label = '%s of one of %d arguments' % (case['what'], case['n'])
        o, meta = prototype(fort, ('ty_a', 'ty_b'))
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        return faults(understand(meta['s.meta']), [('s', 'scheme', [('s_run', args(False))])], label) + \
            [accepted(meta, fort, False, label, more=True)]


class Forms(Harness):
    """The syntactic forms of declarations."""
    functions = FUNCS
    bounds = 'the declarations of P13, in lower, upper or mixed case (names of derived types as declared)'
    budget = 500

    def cases(self, tier):
        return list(FORMS)

    def inputs(self, case, eng):
        return dict(case=eng.choose(3), where=eng.choose(2))

    def agree(self, case, inp):
        import re
        lines, want = FORMS[case]
        change = (str, str.upper, str.title)[inp['case']]
        up = lambda x: re.sub(r'(?i)\bty_[ab]\b', lambda m: m.group(0).lower(), change(x))
        src = ['module s', '  use ccpp_kinds', '  implicit none', 'contains']
        body = lambda ph: TAB('s_' + ph) + ['  ' + up('subroutine') + ' s_%s(%s)' % (ph, ', '.join([w[0] for w in want] + ['errmsg', 'errflg']))] + \
            ['    ' + up(l) for l in lines] + [a.fort() for a in ERRS] + ['  ' + up('end subroutine') + ' s_' + ph]
        phases = ['run', 'finalize'] if inp['where'] else ['run']
        fort = {'s.F90': sum([body(p) for p in phases], src) + ['end module s']}
        args = [Arg(n, t, 'kind_phys' if t == 'real' else None, i, r, bool(o)) for n, t, r, i, o in want] + ERRS
        o, meta = prototype(fort, ('ty_a', 'ty_b'))
        if not o.ok:
            return [(False, '%s: %s' % (case, o.exc))]
        return faults(understand(meta['s.meta']), [('s', 'scheme', [('s_' + p, args) for p in phases])], case) + [accepted(meta, fort, False, case, more=True)]


class Dims(Harness):
    """Explicit dimensions: earlier arguments, one, other numbers."""
    functions = FUNCS
    bounds = ('an array of one or two dimensions, each with a lower bound (none, one, zero, an argument) and an upper bound (one of two arguments, a number), before, between or after '
              'these arguments, in the only routine of a file or in the first and second')
    budget = 500

    def cases(self, tier):
        return [dict(rank=1, second=False), dict(rank=1, second=True), dict(rank=2, second=False)] + ([dict(rank=2, second=True)] if tier == 'thorough' else [])

    def inputs(self, case, eng):
        d = {}
        for k in range(case['rank']):
            d['lo%d' % k] = eng.pick(['', '1:', '0:', 'n:'])
            d['hi%d' % k] = eng.pick(['n', 'm', '4'])
        d['order'] = eng.choose(2)
        d['at'] = eng.choose(3)
        return d

    def agree(self, case, inp):
        dims = [inp['lo%d' % k] + inp['hi%d' % k] for k in range(case['rank'])]
        n, m, a = Arg('n', 'integer', None), Arg('m', 'integer', None), Arg('a', rank=case['rank'])
        a.dims = dims
        first = ([n, m] if inp['order'] else [m, n])
        lst = first[:inp['at']] + [a] + first[inp['at']:] + ERRS
        one = ['    real(kind_phys), intent(in) :: a(%s)' % ','.join(dims)]
        src = ['module s', '  use ccpp_kinds', '  implicit none', 'contains']
        alst = {'init': first + [a] + ERRS, 'run': lst}
        body = lambda ph: TAB('s_' + ph) + ['  subroutine s_%s(%s)' % (ph, ', '.join(x.name for x in alst[ph]))] + [n.fort(), m.fort()] + one + [x.fort() for x in ERRS] + ['  end subroutine s_' + ph]
        ph = ['init', 'run'] if case['second'] else ['run']
        fort = {'s.F90': sum([body(p) for p in ph], src) + ['end module s']}
        o, meta = prototype(fort)
        label = 'dimensions'
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        return faults(understand(meta['s.meta']), [('s', 'scheme', [('s_' + p, alst[p]) for p in ph])], label) + [accepted(meta, fort, False, label)]


class Tables(Harness):
    """What a file contains: derived types, module data, routines of a scheme, in several modules and files."""
    functions = FUNCS
    bounds = ('up to two derived types, module data or none, up to three routines of a scheme, variables or a derived type that are not annotated; one module, two modules in a file, two files; '
              'names and kinds with a symbolic character')
    budget = 700

    def cases(self, tier):
        out = []
        for ddts in (0, 1, 2):
            for data in (0, 1):
                for rts in (0, 1, 3):
                    if ddts + data + rts == 0 or data and rts:
                        continue
                    for split in ('one', 'modules', 'files'):
                        if split == 'modules' and rts:      # capgen expects the scheme's module in a file of its own
                            continue
                        if tier == 'quick' and split != 'one' and ddts == 2:
                            continue
                        out.append(dict(ddts=ddts, data=data, rts=rts, split=split))
        return out

    def inputs(self, case, eng):
        return dict(k=mk(list('kind_') + chs(text('k', 1, 'aB'))), v=mk(list('q') + chs(text('v', 1, 'aBc'))), plain=eng.choose(2), arg=eng.choose(2))

    def agree(self, case, inp):
        hosts = not case['rts']

        def build(form):
            def mod(i):
                # (the variables of two host modules have different names)
                k, v = ('<k>', 'z' * i + '<v>') if form else (inp['k'], mk(list('z' * i) + chs(inp['v'])))
                mn = ('md' if hosts else 's') + str(i)
                spec, want = [], []
                if inp['plain']:
                    spec += ['  type plain%d' % i, '    integer :: hidden', '  end type plain%d' % i, '  integer :: unlisted']
                for j in range(case['ddts']):
                    n = 'ty_%d%d' % (i, j)
                    args = [Arg(v, 'real', k, None, 2), Arg('m', 'integer', None, None)] + ([Arg('t', 'ty_%d0' % i, None, None)] if j else [])
                    spec += TAB(n) + ['  type %s' % n] + [a.fort() for a in args] + ['  end type ' + n]
                    want.append((n, 'ddt', [(n, args)]))
                if case['data']:
                    args = [Arg('w%d' % i, 'integer', None, None, 1), Arg(v, 'real', k, None)]
                    spec += TAB(mn) + [a.fort() for a in args]
                    want.append((mn, 'module', [(mn, args)]))
                body = []
                if case['rts']:
                    body = ['contains']
                    secs = []
                    for ph in ('init', 'run', 'finalize')[:case['rts']] if case['rts'] > 1 else ('run',):
                        args = [Arg(v, 'real', k, 'in', 1)] + ([Arg('u', 'integer', None, 'inout', 0, True)] if inp['arg'] and ph == 'run' else []) + ERRS
                        body += P13.source(mn, [(mn + '_' + ph, args)])[4:-1]
                        if inp['plain']:
                            body += ['  subroutine helper_%s(x)' % ph, '    real(kind_phys), intent(in) :: x', '  end subroutine helper_' + ph]
                        secs.append((mn + '_' + ph, args))
                    want.append((mn, 'scheme', secs))
                return ['module ' + mn, '  use ccpp_kinds', '  implicit none'] + spec + body + ['end module ' + mn], want
            n = 1 if case['split'] == 'one' else 2
            parts = [mod(i + 1) for i in range(n)]
            if case['split'] == 'modules':
                parts = [(parts[0][0] + parts[1][0], parts[0][1] + parts[1][1])]
            return parts
        fort = {'f%d.F90' % i: [subst(x, inp) for x in p[0]] for i, p in enumerate(build(True))}
        o, meta = prototype(fort)
        label = '%d types, %s, %d routines, %s' % (case['ddts'], 'module data' if case['data'] else 'no module data', case['rts'], case['split'])
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        out = []
        for i, (_, want) in enumerate(build(False)):
            # the sections of one scheme may share a table or have one each
            got = understand(meta['f%d.meta' % i])
            out += faults(got, want, label)
            if len(fort) > 1:
                _, alone = prototype({'f%d.F90' % i: fort['f%d.F90' % i]})
                t1, t2 = alone['f%d.meta' % i], meta['f%d.meta' % i]
                out.append((conj(len(t1) == len(t2), *[streq(mk(chs(a)), mk(chs(b))) for a, b in zip(t1, t2)]), '%s: the same as for the file alone' % label))
            out.append(accepted({'f%d.meta' % i: meta['f%d.meta' % i]}, {'f%d.F90' % i: fort['f%d.F90' % i]}, hosts, label))
        return out


HARNESSES = dict(args=Args(), forms=Forms(), dims=Dims(), tables=Tables())


def main(tier, only=None):
    return pmain('P29', tier, 'model_checking', ['sources the script refuses with an error (kinds given by a function call, expressions in dimensions, types of other files) are not covered'],
                 [], ['see the harnesses'], only)
