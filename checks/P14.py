"""P14: metadata attribute values are accepted exactly when they are well formed."""
import z3
from vt.pysym.check import Harness, module, outcome, main as pmain, text, mk
from vt.pysym.files import files
from vt.pysym.sym import same, chs, METHODS, is_in
from vt.pysym.grammar import (accepts, Seq, Alt, Many, Opt, Set, Word, IDENT, INT, REAL, SP, LETTER, DIGIT, ALNUM_, iff, neg, conj, disj,
                              implies)


def PC():
    return module('parse_checkers')


def PROP(name):
    module('parse_tools')
    return module('metavar').Var.get_prop(name)


def verdict(o, want, result, label, error):
    """Assertions about one checker call: accepted iff want, with the given result; rejected by None or (error) CCPPError."""
    if not o.ok:
        if not error:
            return [(False, '%s: raised %s instead of rejecting the value' % (label, o.exc))]
        if o.exc not in ('CCPPError', 'ParseSyntaxError', 'ParseInternalError'):
            return [(False, '%s: crashed with %s' % (label, o.exc))]
        return [(neg(want), '%s: rejected a well formed value' % label)]
    if o.val is None:
        if error:
            return [(False, '%s: malformed value not reported as an error' % label)]
        return [(neg(want), '%s: rejected a well formed value' % label)]
    return [(want, '%s: accepted a malformed value' % label), (same(o.val, result), '%s: value altered' % label)]


class Attr(Harness):
    """One checker over every string of a length over an alphabet."""
    def __init__(self, label, call, want, sizes, alphabet, result=None, pre=None, extra=(None,), template=None, functions=(), deep=1, both=True):
        self.label, self.call, self.want, self.alphabet = label, call, want, alphabet
        self.sizes, self.result, self.pre, self.extra, self.template = sizes, result, pre, extra, template
        self.functions, self.deep, self.both = functions, deep, both
        self.bounds = 'every string of length %s over %r%s' % (list(sizes), alphabet, ' in templates' if template else '')

    def cases(self, tier):
        sizes = list(self.sizes) + ([max(self.sizes) + i + 1 for i in range(self.deep)] if tier == 'thorough' and not self.template else [])
        return [dict(n=n, error=e, extra=x) for n in sizes for e in ((False, True) if self.both else (False,)) for x in range(len(self.extra))]

    def inputs(self, case, eng):
        n = case['n']
        if self.template:
            parts = []
            for k, p in enumerate(self.template[n]):
                if isinstance(p, str):
                    parts += list(p)
                else:
                    parts += chs(text('v%d' % k, p[0], p[1]))
            s = mk(parts)
        else:
            s = text('v', n, self.alphabet)
        if self.pre is not None:
            eng.assume(self.pre(s))
        return dict(value=s)

    def agree(self, case, inp):
        s, x = inp['value'], self.extra[case['extra']]
        o = outcome(self.call, s, x, case['error'])
        w = self.want(s, x)
        r = self.result(s, x) if self.result else s
        return verdict(o, w, r, self.label, case['error'])


LOW = METHODS['lower']
NOBLANK = lambda s: True if not chs(s) else conj(*[neg(accepts(Set(' '), mk([c]))) for c in (chs(s)[0], chs(s)[-1])])

# units: 1, one name with underscores, or unit symbols with integer exponents separated by single blanks
UEXP = Opt(Set('-')) + Set('123456789') + Many(DIGIT)
UNIT = Many(LETTER, 1) + Opt(UEXP)
UNITS = '1' | (UNIT + Many(Set(' ') + UNIT)) | (Many(LETTER, 1) + '_' + Many(LETTER, 1))


def one_underscore(s):
    x = chs(s)
    us = [accepts(Set('_'), mk([c])) for c in x]
    return conj(*[neg(conj(us[i], us[j])) for i in range(len(x)) for j in range(i)])


# Fortran references
DIMREF = IDENT | ':' | Many(DIGIT, 1)
REF = IDENT + SP + '(' + SP + DIMREF + SP + Many(',' + SP + DIMREF + SP, 0, 6) + ')'

ID3 = LETTER + Many(ALNUM_, 0, 2)
DIM3 = ID3 | ':' | Many(DIGIT, 1, 3)
REF3 = ID3 + SP + '(' + SP + DIM3 + SP + Many(',' + SP + DIM3 + SP, 0, 6) + ')'

# diagnostics
DIAG = Opt(IDENT) + Opt(Seq(Word('${process}') | Word('${scheme_name}'), Many(ALNUM_)))


def kinded(g, kind):
    return Seq(g, '_', Word(kind, True)) if kind else g


def literal(t, kind):
    if t == 'integer':
        return kinded(INT, kind)
    if t in ('real', 'double precision'):
        return kinded(REAL, kind)
    if t == 'logical':
        return kinded(Word('.true.', True) | Word('.false.', True), kind)
    if t == 'character':
        any_ = [Set([chr(c) for c in range(32, 127) if chr(c) != q]) for q in '\'"']
        lit = Seq("'", Many(any_[0] | "''"), "'") | Seq('"', Many(any_[1] | '""'), '"')
        return Seq(Word(kind + '_', True), lit) if kind else lit
    if t == 'complex':
        i, r = kinded(INT, kind), kinded(REAL, kind)
        return Seq('(', i, ',', i, ')') | Seq('(', r, ',', r, ')')


def lit_call(s, x, error):
    return PC().check_default_value(s, dict(type=x[0], kind=x[1]) if x[1] else dict(type=x[0]), error)


TRUE = Word('t', True) | Word('true', True) | Word('.true.', True)
FALSE = Word('f', True) | Word('false', True) | Word('.false.', True)


class Bool(Harness):
    functions = ('VariableProperty.valid_value',)
    bounds = 'every text of at most 7 characters, letters of true/false in both cases'
    T = [[(1, 'tTfFxy.')], [(2, 'tTrR.')], [(1, '.tT'), 'r', (1, 'uU.'), (1, 'eEx')], [(1, 'fF.t'), 'al', (1, 's.'), (1, 'eE.')],
         [(1, '.t'), (1, 'tT'), 'ru', (1, 'eE'), (1, '.e')], [(1, '.f'), (1, 'fF'), 'al', (1, 'sS'), 'e', (1, '.e')], []]

    def cases(self, tier):
        return [dict(t=i, error=e, name=n) for i in range(len(self.T)) for e in (False, True) for n in ('protected', 'optional')]

    def inputs(self, case, eng):
        parts = []
        for k, p in enumerate(self.T[case['t']]):
            parts += list(p) if isinstance(p, str) else chs(text('v%d' % k, p[0], p[1]))
        return dict(value=mk(parts))

    def agree(self, case, inp):
        s = inp['value']
        o = outcome(PROP(case['name']).valid_value, s, None, case['error'])
        t, f = accepts(TRUE, s), accepts(FALSE, s)
        if o.ok and o.val is not None:
            return [(disj(t, f), 'logical attribute: accepted a malformed value'), (iff(t, bool(o.val)), 'logical attribute: wrong truth value')]
        if not o.ok and (not case['error'] or o.exc != 'CCPPError'):
            return [(False, 'logical attribute: crashed with %s' % o.exc)]
        if o.ok and case['error']:
            return [(False, 'logical attribute: malformed value not reported')]
        return [(neg(disj(t, f)), 'logical attribute: rejected a well formed value')]


class Dims(Harness):
    """dimensions = ( ... ): the list and every entry of it."""
    functions = ('fortran_list_match', 'check_balanced_paren', 'check_dimensions', 'VariableProperty.valid_value')
    bounds = 'the text between the parentheses: every string up to 5 characters over a,1,_,colon,comma,blank'

    def cases(self, tier):
        return [dict(n=n, pre=p, error=e) for n in range(0, 6 if tier == 'quick' else 8) for p in ('', ' ') for e in (False, True)]

    def inputs(self, case, eng):
        return dict(value=mk(list('(' + case['pre']) + chs(text('v', case['n'], 'a1_:, ')) + [')']))

    def agree(self, case, inp):
        s = inp['value']
        o = outcome(PROP('dimensions').valid_value, s, None, case['error'])
        items = [METHODS['strip'](p) for p in METHODS['split'](s[1:-1], ',')]
        ITEM = IDENT | INT
        BL = Set(' ')
        # blanks inside an entry are only defined around a complete bound
        if any(len(p) and any(is_in(c, ' ') for c in chs(p)) for p in items):
            if o.ok or o.exc == 'CCPPError':
                return [(True, 'dimensions: entry with inner blanks answered')]
            return [(False, 'dimensions: crashed with %s' % o.exc)]
        ok = True
        if len(items) == 1 and len(items[0]) == 0:
            items = []
        for p in items:
            B = Opt(ITEM)
            ok = conj(ok, len(p) > 0, accepts(ITEM | Seq(B, ':', B) | Seq(B, ':', B, ':', B), p))
        return verdict(o, ok, items, 'dimensions', case['error'])


class Enclosed(Harness):
    """dimensions must be enclosed in one pair of parentheses."""
    functions = ('fortran_list_match', 'check_balanced_paren')
    bounds = 'every string up to 5 characters over a,(,),comma,blank'

    def cases(self, tier):
        return [dict(n=n) for n in range(0, 6 if tier == 'quick' else 8)]

    def inputs(self, case, eng):
        s = text('v', case['n'], 'a(), ')
        eng.assume(NOBLANK(s))
        return dict(value=s)

    def agree(self, case, inp):
        s = inp['value']
        o = outcome(PROP('dimensions').valid_value, s, None, False)
        if not o.ok:
            return [(o.exc == 'CCPPError', 'dimensions: crashed with %s' % o.exc)]
        x = chs(s)
        entry = SP + IDENT + SP
        ok = accepts(Seq('(', SP, ')') | Seq('(', entry, Many(Seq(',', entry)), ')'), s)
        return [(iff(o.val is not None, ok), 'dimensions: %s' % ('list not enclosed in parentheses accepted' if o.val is not None else 'well formed list rejected'))]


class Molar(Harness):
    functions = ('check_molar_mass', 'VariableProperty.valid_value')
    bounds = 'every string up to 6 characters over 0,1,9,.,+,-,e,a and the spellings of inf and nan'
    T = [[(1, '+-0'), (1, 'nNiI'), (1, 'aAnN'), (1, 'nNfF')], [(1, 'nNiI'), (1, 'aAnN'), (1, 'nNfF')]]

    def cases(self, tier):
        return [dict(n=n, t=None, error=e) for n in range(0, 6 if tier == 'quick' else 8) for e in (False, True)] + \
               [dict(n=0, t=t, error=e) for t in range(len(self.T)) for e in (False, True)]

    def inputs(self, case, eng):
        if case['t'] is not None:
            return dict(value=mk([c for k, p in enumerate(self.T[case['t']]) for c in chs(text('v%d' % k, p[0], p[1]))]))
        return dict(value=text('v', case['n'], '019.+-ea'))

    def agree(self, case, inp):
        s = inp['value']
        o = outcome(PROP('molar_mass').valid_value, s, None, case['error'])
        form = accepts(REAL | INT | Seq(INT, Set('eE'), INT), s)
        if not o.ok:
            if not case['error'] or o.exc not in ('CCPPError', 'ParseSyntaxError'):
                return [(False, 'molar mass: crashed with %s' % o.exc)]
        if not o.ok or o.val is None:
            if o.ok and case['error']:
                return [(False, 'molar mass: malformed value not reported')]
            if form is False:
                return [(True, 'molar mass rejected')]
            from vt.pysym.sym import ask, to_float, rexpr, SymStr
            if not ask(form):
                return [(True, 'molar mass rejected')]
            v = to_float(s)
            return [(v < 0 or v > 10000, 'molar mass: rejected a well formed value')]
        from vt.pysym.sym import to_float
        v = outcome(to_float, s)
        return [(form, 'molar mass: accepted a malformed value'),
                (v.ok and same(float(o.val) if not hasattr(o.val, 'e') else o.val, v.val), 'molar mass: value altered'),
                (v.ok and v.val >= 0 and v.val <= 10000, 'molar mass: value out of range accepted')]


class Reader(Harness):
    """A whole variable entry read from a metadata table, one attribute line being symbolic."""
    functions = ('MetadataTable.__init_from_file', 'MetadataSection.parse_variable', 'MetadataSection.variable_start', '_parse_config_line',
                 'ParseObject.curr_line', 'Var.__init__')
    bounds = 'one scheme argument; one attribute name or value symbolic in templates of up to 5 free characters'
    FULL = dict(standard_name='air_temp', units='K', type='real', dimensions='()', intent='in')
    LINES = [('standard_name', [(3, 'aB_1-')]), ('units', ['m', (3, 's -2')]), ('units', [(1, 'K1 '), (1, 'K1 ')]), ('dimensions', ['(', (3, 'a:1,'), ')']),
             ('dimensions', [(2, '()a'), ')']), ('type', ['rea', (2, 'lL ')]), ('type', ['re', (1, 'ax'), 'l']), ('intent', ['i', (1, 'n1'), (1, 'on '), (1, 'ut '), (1, 't ')]),
             ('molar_mass', [(3, '1.-a')]), ('optional', ['.', (1, 'tTf'), 'rue', (1, '.e')]), ('protected', [(1, 'tTfFx')]), ('units', [])]
    NAMES = [('uni', 2, 'tsx_', 'units', 'm'), ('in', 4, 'tenx', 'intent', 'in')]

    def cases(self, tier):
        return [dict(line=i, first=f) for i in range(len(self.LINES)) for f in (False, True)] + [dict(name=i) for i in range(len(self.NAMES))]

    def inputs(self, case, eng):
        if 'name' in case:
            a, n, al, _, _ = self.NAMES[case['name']]
            return dict(value=mk(list(a) + chs(text('v', n, al))))
        return dict(value=mk([c for k, p in enumerate(self.LINES[case['line']][1]) for c in (list(p) if isinstance(p, str) else chs(text('v%d' % k, p[0], p[1])))]))

    def agree(self, case, inp):
        s = inp['value']
        props = dict(self.FULL)
        lines = ['[ccpp-table-properties]', '  name = tbl_run', '  type = scheme', '[ccpp-arg-table]', '  name = tbl_run', '  type = scheme', '[ foo ]']
        if 'name' in case:
            attr, val = self.NAMES[case['name']][3:]
            props.pop(attr)
            line = mk(list('  ') + chs(s) + list(' = ' + val))
        else:
            attr = self.LINES[case['line']][0]
            props.pop(attr, None)
            line = mk(list('  %s = ' % attr) + chs(s))
        rest = ['  %s = %s' % kv for kv in props.items()]
        lines += [line] + rest if 'name' in case or case.get('first') else rest + [line]
        module('parse_tools')
        lines[1] = '  name = tbl'
        mt = module('metadata_table')
        env = runenv()
        with files([mt], {'t.meta': lines}):
            o = outcome(mt.parse_metadata_file, 't.meta', [], env)
        if not o.ok and o.exc not in ('CCPPError', 'ParseSyntaxError'):
            return [(False, 'metadata reader: crashed with %s' % o.exc)]
        v = METHODS['strip'](s)
        if 'name' in case:
            want = accepts(attr, v)
            res = val
        else:
            want, res = self.expect(attr, v)
        if not o.ok:
            return [(neg(want), 'metadata reader: rejected a well formed %s' % attr)]
        out = [(want, 'metadata reader: accepted a malformed %s' % attr)]
        sect = [x for t in o.val for x in t.sections()]
        vars_ = sect[0].variable_list() if len(sect) == 1 else []
        out.append((len(vars_) == 1, 'metadata reader: argument lost'))
        if len(vars_) == 1:
            g = vars_[0].get_prop_value(attr)
            if attr == 'molar_mass':
                from vt.pysym.sym import to_float
                r = outcome(to_float, v)
                out.append((r.ok and same(g, r.val), 'metadata reader: molar mass altered'))
            elif res is not None:
                out.append((same(g, res) if not isinstance(res, bool) else g == res, 'metadata reader: %s altered' % attr))
            for k, w in props.items():
                g = vars_[0].get_prop_value(k)
                out.append((g == w if k != 'dimensions' else list(g) == [], 'metadata reader: %s altered' % k))
        return out

    def expect(self, attr, v):
        if attr == 'standard_name':
            return accepts(IDENT, v), LOW(v)
        if attr == 'units':
            return conj(accepts(UNITS, v)), v
        if attr == 'type':
            return accepts(Word('real', True), v), v
        if attr == 'intent':
            return accepts(Alt('in', 'out', 'inout'), v), v
        if attr == 'molar_mass':
            return accepts(REAL | Many(DIGIT, 1) | Seq('-', Many('0', 1)), v) if not self.small(v) else False, None
        if attr in ('optional', 'protected'):
            t = accepts(TRUE, v)
            if t is True or t is False:
                return disj(t, accepts(FALSE, v)), t
            from vt.pysym.sym import ask
            t = ask(t)
            return disj(t, accepts(FALSE, v)), t
        items = METHODS['split'](v[1:-1], ',')
        ITEM = IDENT | INT
        B = Opt(ITEM)
        ok = True
        res = []
        if len(items) == 1 and len(items[0]) == 0:
            items = []
        for p in items:
            ok = conj(ok, len(p) > 0, accepts(ITEM | Seq(B, ':', B) | Seq(B, ':', B, ':', B), p))
            if any(is_in(c, ':') for c in chs(p)):
                res.append(p)
            else:
                res.append(mk(list('ccpp_constant_one:') + chs(p)))
        return conj(accepts(Seq('(', Many(Set('abcdefghijklmnopqrstuvwxyz0123456789:,')), ')'), v), ok), res

    def small(self, v):
        """Negative values are out of range."""
        from vt.pysym.sym import to_float
        r = outcome(to_float, v)
        return r.ok and r.val < 0


def runenv():
    import logging
    fe = module('framework_env')
    return fe.CCPPFrameworkEnv(None, ndict={'host_files': '', 'scheme_files': '', 'suites': ''}, kind_types=["kind_phys=REAL64"])


def choice(label, name, words):
    alpha = ''.join(sorted(set(''.join(words)))) + 'I'
    return Attr(label, lambda s, x, e: PROP(name).valid_value(s, None, e), lambda s, x: accepts(Alt(*words), s), range(0, 6), alpha[:8],
                functions=('VariableProperty.valid_value',), deep=2)


def const_name(s, x, error):
    return PC().check_local_name(s, dict(protected=x[0], type=x[1]) if not x[2] else dict(protected=x[0], type=x[1], kind=x[2]), error)


LITEXTRA = [('integer', ''), ('integer', 'k'), ('real', ''), ('real', 'k'), ('double precision', '')]

HARNESSES = dict(
    identifier=Attr('Fortran identifier', lambda s, x, e: PC().check_fortran_id(s, None, e, max_len=x),
                    lambda s, x: conj(accepts(IDENT, s), x == 0 or len(s) <= x), range(0, 7), 'aZ_09 -(', extra=(0, 3), functions=('check_fortran_id',), deep=3),
    standard_name=Attr('standard name', lambda s, x, e: PC().check_cf_standard_name(s, None, e), lambda s, x: accepts(IDENT, s), range(1, 7),
                       'aZ_09 -(', result=lambda s, x: LOW(s), functions=('check_cf_standard_name',), deep=3),
    units=Attr('units', lambda s, x, e: PROP('units').valid_value(s, None, e), lambda s, x: accepts(UNITS, s), range(1, 8), 'aZ_ -109.',
               pre=lambda s: conj(NOBLANK(s), one_underscore(s)), functions=('check_units', 'VariableProperty.valid_value'), deep=3),
    dimensions=Dims(), enclosed=Enclosed(),
    reference=Attr('Fortran reference', lambda s, x, e: PC().check_fortran_ref(s, None, e), lambda s, x: accepts(IDENT | REF, s), range(1, 8), 'a0_:,() ',
                   functions=('check_fortran_ref',), deep=2),
    long_reference=Attr('Fortran reference', lambda s, x, e: PC().check_fortran_ref(s, None, e), lambda s, x: accepts(IDENT | REF, s), range(0, 4), '',
                        template=[[(1, 'a1'), '(', (3, 'a:,1 '), 'b,', (2, ':1), ')], ['q(:,:,', (4, 'aB_1 '), ')'],
                                  ['a(1,2,3,4,5,6', (3, ',7)x')], ['a(1,2,3,4,5,6,7', (3, ',8)x')]], functions=('check_fortran_ref',)),
    reference_length=Attr('Fortran reference of limited identifier length', lambda s, x, e: PC().check_fortran_ref(s, None, e, max_len=3),
                          lambda s, x: accepts(ID3 | REF3, s), range(0, 5), '',
                          template=[[(2, 'aB'), (3, 'a(1'), (2, 'a)')], ['foo(', (4, 'ab,1'), ',', (4, 'a1_ '), ')'], ['f(a,:,', (5, 'a,1 '), ')'],
                                    ['f(a,b,c,d,', (4, 'ab'), ')'], [(4, 'ab '), '(:,i)']], functions=('check_fortran_ref', 'check_fortran_id')),
    constant_name=Attr('local name of a constant', const_name, lambda s, x: disj(accepts(IDENT | REF, s), conj(x[0], accepts(literal(x[1], x[2]), s))),
                       range(1, 6), 'ak_01.-e', extra=((True, 'integer', ''), (False, 'integer', ''), (True, 'real', 'k')),
                       functions=('check_local_name', 'check_fortran_literal', 'check_fortran_ref')),
    numeric_default=Attr("default value", lit_call, lambda s, x: accepts(literal(*x), s), range(1, 7), "01.+-e_kK", extra=LITEXTRA,
                         functions=('check_default_value', 'check_fortran_literal')),
    logical_default=Attr('default value', lit_call, lambda s, x: accepts(literal(*x), s), range(0, 4), '',
                         template=[[(1, '.tT'), (1, 'tTr'), 'rue', (1, '._e')], ['.f', (1, 'aA'), (1, 'lL.'), 'se.', ], ['.true.', (2, '_k.')], ['.fals', (2, 'e._')]],
                         extra=[('logical', ''), ('logical', 'k')], functions=('check_fortran_literal',)),
    character_default=Attr('default value', lit_call, lambda s, x: accepts(literal(*x), s), range(1, 7), '\'"aK_k ', pre=NOBLANK,
                           extra=[('character', ''), ('character', 'k')], functions=('check_fortran_literal',)),
    complex_default=Attr('default value', lit_call, lambda s, x: accepts(literal(*x), s), range(1, 7), '(),1.+_k',
                         extra=[('complex', ''), ('complex', 'k')], functions=('check_fortran_literal',)),
    intrinsic_type=Attr('type', lambda s, x, e: PC().check_fortran_type(s, None, e),
                        lambda s, x: accepts(Alt(*[Word(w, True) for w in ('integer', 'real', 'logical', 'complex', 'character')]) |
                                             Seq(Word('double', True), SP, Word('precision', True)), s), range(0, 9), '',
                        template=[['double', (2, ' pPx'), 'recision'], ['doubleprecision', (2, 'x ')], ['double precisio', (2, 'nN ')], [(1, 'rRx'), 'ea', (2, 'lLx')],
                                  [(1, 'iI'), 'ntege', (2, 'rR8')], ['log', (2, 'icI'), 'al'], ['comple', (2, 'xX')], [(1, 'cC'), 'haracte', (2, 'rR')], [(4, 'realt')]],
                        pre=NOBLANK, functions=('check_fortran_type', 'check_fortran_intrinsic')),
    diagnostic=Attr('diagnostic name', lambda s, x, e: PC().check_diagnostic_id(s, {}, e), lambda s, x: accepts(DIAG, s), range(0, 5), '',
                    template=[[(4, 'a_1$')], [(2, 'a_1$'), '${process}', (2, 'a_1$')], [(2, 'a_1'), '${scheme_name}', (2, 'a1}')], ['a', (1, '$a'), (1, '{('), 'process', (2, '}a_')],
                              ['${proces', (2, 's}x'), (2, 'a}$')]], functions=('check_diagnostic_id',)),
    diagnostic_fixed=Attr('fixed diagnostic name', lambda s, x, e: PC().check_diagnostic_fixed(s, {}, e), lambda s, x: accepts(IDENT, s), range(1, 6), 'aZ_0 $',
                          functions=('check_diagnostic_fixed',), deep=2),
    boolean=Bool(), molar_mass=Molar(),
    reader=Reader(),
    intent=choice('intent', 'intent', ('in', 'out', 'inout')),
)


def main(tier, only=None):
    return pmain('P14', tier, 'model_checking',
                 ['the string model: concrete length, characters of a finite alphabet; the regular expression matcher follows Python re (cross-checked)',
                  'values reach the checkers stripped of surrounding blanks and newlines, as the metadata reader delivers them',
                  'the grammars are those of the docstrings: units names with one underscore; dimension entries without inner blanks'],
                 [], ['see the per-harness bounds'], only)


if __name__ == '__main__':
    import sys
    sys.exit(main('quick', sys.argv[1:]))
