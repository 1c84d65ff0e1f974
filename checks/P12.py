"""P12: unit conversions are physically right and inverse to each other."""
import itertools
import math
import re
from fractions import Fraction
import z3
from vt.engine import Inconclusive, cur
from vt.fort.parser import P, lex
from vt.pysym.check import Harness, module, outcome, main as pmain, text, mk
from vt.pysym.sym import SymFloat, chs, same, concretize, rexpr
from vt.pysym.grammar import accepts, conj, disj, neg
from checks.P14 import UNITS, NOBLANK, one_underscore

F = Fraction
PI = F(314159265358979323846264338327950288, 10 ** 35)
# unit -> (quantity, factor, offset): value in the base unit = factor * x + offset
UNIT = {
    'm': ('length', F(1), 0), 'mm': ('length', F(1, 1000), 0), 'cm': ('length', F(1, 100), 0), 'um': ('length', F(1, 10 ** 6), 0),
    'km': ('length', F(1000), 0), 'nm': ('length', F(1, 10 ** 9), 0), 'dm': ('length', F(1, 10), 0),
    's': ('time', F(1), 0), 'min': ('time', F(60), 0), 'h': ('time', F(3600), 0), 'd': ('time', F(86400), 0), 'ms': ('time', F(1, 1000), 0),
    'K': ('temperature', F(1), 0), 'C': ('temperature', F(1), F(27315, 100)), 'F': ('temperature', F(5, 9), F(45967, 100) * F(5, 9)),
    'kg kg-1': ('mass ratio', F(1), 0), 'g kg-1': ('mass ratio', F(1, 1000), 0), 'mg kg-1': ('mass ratio', F(1, 10 ** 6), 0),
    'g g-1': ('mass ratio', F(1), 0),
    'radian': ('angle', F(1), 0), 'degree': ('angle', PI / 180, 0), 'degree_north': ('angle', PI / 180, 0), 'degree_east': ('angle', PI / 180, 0),
    'Pa': ('pressure', F(1), 0), 'hPa': ('pressure', F(100), 0), 'kPa': ('pressure', F(1000), 0), 'mb': ('pressure', F(100), 0),
    'm s-1': ('speed', F(1), 0), 'km h-1': ('speed', F(10, 36), 0), 'cm s-1': ('speed', F(1, 100), 0), 'km s-1': ('speed', F(1000), 0),
    'W m-2': ('energy flux', F(1), 0), 'erg cm-2 s-1': ('energy flux', F(1, 1000), 0), 'J m-2 s-1': ('energy flux', F(1), 0),
    'J m-2': ('energy per area', F(1), 0), 'm2 s-2': ('specific energy', F(1), 0), 'm2': ('area', F(1), 0), 'm3': ('volume', F(1), 0),
    'kg': ('mass', F(1), 0), 'g': ('mass', F(1, 1000), 0), 's-1': ('frequency', F(1), 0), 'm-1': ('wave number', F(1), 0),
    '1': ('none', F(1), 0), 'none': ('not a number', F(1), 0), 'count': ('count', F(1), 0), 'fraction': ('fraction', F(1), 0), 'frac': ('fraction', F(1), 0),
    'percent': ('fraction', F(1, 100), 0), 'kg m-3': ('density', F(1), 0), 'g m-3': ('density', F(1, 1000), 0), 'mm s-1': ('speed', F(1, 1000), 0),
    'K s-1': ('temperature rate', F(1), 0), 'kg m-2 s-1': ('mass flux', F(1), 0), 'flag': ('flag', F(1), 0), 'index': ('index', F(1), 0), 'N m-2': ('pressure', F(1), 0),
}
# what the framework offers (documented in scripts/conversion_tools)
KNOWN = ['m', 'mm', 'cm', 'um', 'km', 's', 'min', 'h', 'd', 'K', 'C', 'kg kg-1', 'g kg-1', 'radian', 'degree', 'degree_north', 'degree_east', 'Pa', 'hPa',
         'm s-1', 'km h-1', 'W m-2', 'erg cm-2 s-1']
DIGITS = {'kind_a': 53, 'kind_b': 24, 'kind_c': 53, 'REAL32': 24, 'REAL64': 53, '': 24, None: 24, 'kind_phys': 53}
ENV = ['kind_a=REAL64', 'kind_b=REAL32', 'kind_c=REAL64', 'kind_phys=REAL64']


def env():
    fe = module('framework_env')
    return fe.CCPPFrameworkEnv(None, ndict={'host_files': '', 'scheme_files': '', 'suites': ''}, kind_types=ENV)


class Formula(Exception):
    pass


def q(x):
    return z3.RealVal(x) if isinstance(x, (Fraction, int)) else x


def symbolic(*a):
    return any(isinstance(x, z3.ExprRef) for x in a)


def ev(e, var, x, prec):
    """(value, integer?) of a Fortran expression; var: its operand as text; prec: binary digits the result must carry."""
    k = e[0]
    if k == 'real':
        kind = e[2]
        if DIGITS.get(kind if kind is None or kind in DIGITS else kind.upper(), None) is None:
            raise Formula('literal of unknown kind %r' % kind)
        if DIGITS[kind if kind is None or kind in DIGITS else kind.upper()] < prec:
            import struct
            return F(struct.unpack('f', struct.pack('f', float(e[1])))[0]), False
        return e[1], False
    if k == 'int':
        return F(e[1]), True
    if k == 'paren':
        return ev(e[1], var, x, prec)
    if k == 'un' and e[1] == '-':
        v, i = ev(e[2], var, x, prec)
        return -v, i
    if k == 'bin':
        a, i = ev(e[2], var, x, prec)
        b, j = ev(e[3], var, x, prec)
        if e[1] in '+-*':
            if symbolic(a, b):
                a, b = q(a), q(b)
            return (a + b if e[1] == '+' else a - b if e[1] == '-' else a * b), i and j
        if e[1] == '/':
            if i and j:
                return F(int(a / b)), True
            if symbolic(a, b):
                a, b = q(a), q(b)
            return a / b, False
    if e == var:
        return x, False
    if k == 'index' and e[1] == ('name', 'real'):
        v, i = ev(e[2][0], var, x, prec)
        if len(e[2]) > 1:
            kd = e[2][1][2] if e[2][1][0] == 'kw' else e[2][1]
            if kd[0] != 'name':
                raise Formula('unexpected kind %r' % (kd,))
            n = kd[1] if kd[1] in DIGITS else kd[1].upper()
            if DIGITS.get(n, 0) < prec:
                raise Formula('operand converted to the less precise kind %s' % kd[1])
        return v, False
    raise Formula('unexpected expression %r' % (e,))


def assign(txt, lhs, rhs, x, prec):
    """Value an assignment statement gives to lhs when rhs holds x."""
    p = P(lex(txt))
    l = p.expr()
    p.expect('=')
    r = p.expr()
    if not p.eof():
        raise Formula('text after the statement')
    if l != P(lex(lhs)).expr():
        raise Formula('assigns to something else')
    return ev(r, P(lex(rhs)).expr(), x, prec)[0]


def real(x):
    return x.e if isinstance(x, SymFloat) else F(x)


def near(a, b, scale):
    """|a - b| <= 1e-10 |scale|"""
    t = F(1, 10 ** 10)
    if not symbolic(a, b, scale):
        return abs(F(a) - F(b)) <= t * abs(F(scale))
    a, b, s = q(a), q(b), q(scale)
    d = z3.If(a > b, a - b, b - a)
    return d <= q(t) * z3.If(s > 0, s, -s)


def physical(u1, u2, x):
    (a1, b1), (a2, b2) = UNIT[u1][1:], UNIT[u2][1:]
    return (x * q(a1) + q(b1) - q(b2)) / q(a2) if symbolic(x) else (x * a1 + b1 - b2) / a2


def judge(label, u1, u2, fwd, rev, x):
    """fwd, rev: value -> converted value."""
    if UNIT[u1][0] != UNIT[u2][0]:
        return [(False, '%s: conversion offered between different quantities' % label)]
    try:
        y = fwd(x)
        back = rev(y)
        z = rev(x)
        there = fwd(z)
    except Formula as e:
        return [(False, '%s: %s' % (label, e))]
    return [(near(y, physical(u1, u2, x), x * q(UNIT[u1][1] / UNIT[u2][1]) if symbolic(x) else x * UNIT[u1][1] / UNIT[u2][1]), '%s: wrong value' % label),
            (near(z, physical(u2, u1, x), x * q(UNIT[u2][1] / UNIT[u1][1]) if symbolic(x) else x * UNIT[u2][1] / UNIT[u1][1]), '%s: wrong value on the way back' % label),
            (back == x, '%s: there and back changes the value' % label), (there == x, '%s: back and there changes the value' % label)]


def compat(u1, u2, k1, k2, dims=()):
    return module('var_props').VarCompatObj('var_std', 'real', k1, u1, list(dims), 'one', False, 'var_std', 'real', k2, u2, list(dims), 'two', False, env())


def rejected(o, label):
    return (o.exc in ('ParseSyntaxError', 'CCPPError'), '%s: crashed with %s' % (label, o.exc))


def transforms(c, k1, k2, idx):
    ri, li = (('i', 'nk-k+1'), ('i', 'k')) if idx else ((), ())
    a = 'two(i,k)' if idx else 'two'
    b = 'one(i,nk-k+1)' if idx else 'one'
    f = concretize(c.forward_transform('two', 'one', ri, li)) if not isinstance(c, tuple) else c[0]
    r = concretize(c.reverse_transform('one', 'two', li, ri)) if not isinstance(c, tuple) else c[1]
    return (lambda x: assign(f, a, b, x, DIGITS[k2])), (lambda x: assign(r, b, a, x, DIGITS[k1]))


class Capgen(Harness):
    """VarCompatObj for every ordered pair of units; the value is symbolic."""
    functions = ('VarCompatObj.__init__', 'VarCompatObj._get_unit_convstrs', 'VarCompatObj.units_to_string', 'VarCompatObj.forward_transform',
                 'VarCompatObj.reverse_transform', 'unit_conversion.*')
    bounds = 'all ordered pairs of %d units, every real value, exact arithmetic (relative tolerance 1e-10)' % len(UNIT)

    def cases(self, tier):
        us = list(UNIT)
        return [dict(u1=a) for a in us]

    def inputs(self, case, eng):
        return dict(x=SymFloat(eng.real('x')))

    def agree(self, case, inp):
        x = real(inp['x'])
        out = []
        u1 = case['u1']
        for u2 in UNIT:
            if u1 == u2:
                continue
            for k1, k2, idx in (('kind_a', 'kind_a', True), ('kind_a', 'kind_b', False), ('', '', False)):
                label = 'capgen %s to %s' % (u1, u2)
                o = outcome(compat, u1, u2, k1, k2)
                if not o.ok:
                    out += [rejected(o, label)]
                    if u1 in KNOWN and u2 in KNOWN and k1 == 'kind_a' and (u1, u2) in RULES:
                        out.append((False, '%s: documented conversion not found' % label))
                    continue
                if not o.val.compat:
                    continue
                if not o.val.has_unit_transforms:
                    out.append((False, '%s: different units taken as equal' % label))
                    continue
                f, r = transforms(o.val, k1, k2, idx)
                out += judge(label, u1, u2, f, r, x)
        return out


class Prebuild(Harness):
    functions = ('mkcap.Var.convert_to', 'mkcap.Var.convert_from', 'common.string_to_python_identifier', 'unit_conversion.*')
    bounds = Capgen.bounds

    def cases(self, tier):
        return [dict(u1=a) for a in UNIT]

    inputs = Capgen.inputs

    def agree(self, case, inp):
        x = real(inp['x'])
        out = []
        mk_ = module('mkcap')
        u1 = case['u1']
        for u2 in UNIT:
            if u1 == u2:
                continue
            label = 'prebuild %s to %s' % (u1, u2)
            v = mk_.Var(standard_name='var_std', long_name='', units=u1, local_name='one', type='real', dimensions=[], kind='kind_a', intent='inout', optional='F')
            o1 = outcome(v.convert_from, u2)
            o2 = outcome(v.convert_to, u2)
            out.append((o1.ok == o2.ok, '%s: a conversion without the reverse one' % label))
            if not (o1.ok and o2.ok):
                out.append((o1.exc == 'Exception' or o2.exc == 'Exception', '%s: crashed' % label))
                continue
            # in: from u2 to the units of the variable; out: the other way
            f = lambda t: assign('two=' + v.actions['in'].format(var='one', kind='_kind_a'), 'two', 'one', t, 53)
            r = lambda t: assign('one=' + v.actions['out'].format(var='two', kind='_kind_a'), 'one', 'two', t, 53)
            out += judge(label, u2, u1, f, r, x)
        return out


class Names(Harness):
    """The rule found for a pair of unit texts, one of them symbolic."""
    functions = ('VarCompatObj._get_unit_convstrs', 'VarCompatObj.units_to_string')
    bounds = 'every well formed unit text of at most 4 characters (templates beyond), against each unit of the conversion table, in both roles'
    SIZES = {1: 'mskKChdgP1u', 2: 'mckuPas1', 3: 'minhPa', 4: 'msg -1'}
    T = {'t1': ['W m', (1, '-_ '), (1, '12')], 't2': ['erg cm-', (1, '123'), ' s', (2, '-1 ')], 't3': ['degree', (1, '_-n'), 'nort', (1, 'hs')], 't4': [(1, 'rd'), 'adia', (1, 'nm')],
         't5': ['degre', (1, 'ea')], 't6': ['m s', (1, '-_ '), (1, '12')],
         't7': [(1, 'km'), (1, 'gm'), ' ', (1, 'kh'), (2, 'g-1')], 't8': [(1, 'gk'), (1, 'g '), (1, 'k '), (1, 'g '), '-1'], 't9': [(2, 'kgm '), 'kg-', (1, '12')]}

    def cases(self, tier):
        return [dict(n=n, u=u) for u in KNOWN for n in list(self.SIZES) + list(self.T)]

    def inputs(self, case, eng):
        n = case['n']
        if isinstance(n, int):
            s = text('v', n, self.SIZES[n])
        else:
            s = mk([c for k, p in enumerate(self.T[n]) for c in (list(p) if isinstance(p, str) else chs(text('v%d' % k, p[0], p[1])))])
        eng.assume(conj(accepts(UNITS, s), NOBLANK(s), one_underscore(s), neg(accepts(case['u'], s))))
        return dict(unit=s, x=SymFloat(eng.real('x')))

    def agree(self, case, inp):
        s, u, x = inp['unit'], case['u'], real(inp['x'])
        out = []
        for rev in (False, True):
            a, b = (u, s) if rev else (s, u)
            label = 'capgen rule for %s' % ('%s to a text' % u if rev else 'a text to %s' % u)
            o = outcome(compat, a, b, 'kind_a', 'kind_a')
            if not o.ok:
                out.append(rejected(o, label))
                continue
            if not o.val.compat:
                continue
            v = concretize(s)
            if v not in UNIT:
                out.append((False, '%s: rule for the unknown unit %r' % (label, v)))
                continue
            f, r = transforms(o.val, 'kind_a', 'kind_a', False)
            out += judge(label, v if not rev else u, u if not rev else v, f, r, x)
        return out


class Kinds(Harness):
    """Kinds of the literals and of the operand in the conversion statements."""
    functions = ('VarCompatObj.forward_transform', 'VarCompatObj.reverse_transform', 'VarCompatObj._get_kind_convstrs', 'CCPPFrameworkEnv.kind_spec')
    bounds = 'kind names with one symbolic character (2 of 64 bit, 1 of 32 bit), representative unit pairs, every real value'
    PAIRS = [('K', 'C'), ('m', 'mm'), ('s', 'h'), ('radian', 'degree'), ('W m-2', 'erg cm-2 s-1')]

    def cases(self, tier):
        return [dict(p=list(p), idx=i) for p in self.PAIRS for i in (False, True)]

    def inputs(self, case, eng):
        return dict(k1=mk(list('kind_') + chs(text('a', 1, 'abc'))), k2=mk(list('kind_') + chs(text('b', 1, 'abc'))), x=SymFloat(eng.real('x')))

    def agree(self, case, inp):
        u1, u2 = case['p']
        x = real(inp['x'])
        o = outcome(compat, u1, u2, inp['k1'], inp['k2'])
        if not o.ok or not o.val.compat:
            return [(False, 'capgen conversion with kinds: rejected')]
        k1, k2 = concretize(inp['k1']), concretize(inp['k2'])
        f, r = transforms(o.val, k1, k2, case['idx'])
        return judge('capgen %s to %s with kinds' % (u1, u2), u1, u2, f, r, x)


def factors(u):
    """Exponents of the base names of a unit text."""
    d = {}
    for t in u.split():
        m = re.match(r'^([A-Za-z_]+)(-?[0-9]+)?$', t)
        if m is None and t != '1':
            return None
        if m is not None:
            d[m.group(1)] = d.get(m.group(1), 0) + int(m.group(2) or 1)
    return {k: v for k, v in d.items() if v}


class Tendency(Harness):
    """Units of the tendency of a constituent, against those of the constituent."""
    functions = ('VarCompatObj.__init__',)
    bounds = 'units of the constituent from a list of 9; tendency: every well formed text of up to 3 characters of "kgms-12 " (templates beyond) before, within or after " s-1", with and without the constituent units'
    STATE = ['kg kg-1', 'kg', '1', 'm s-1', 's-1', 'm-3', 's', 'kg m-2 s-1', 'none']
    FORMS = {'after': lambda u, k: [u, k], 'rate': lambda u, k: [u, ' ', k], 'tail': lambda u, k: [u, ' s-1', k], 'head': lambda u, k: [k, u, ' s-1'], 'alone': lambda u, k: [k],
             'mid': lambda u, k: [u, k, 's-1']}

    def cases(self, tier):
        def some(u, f, n):
            ts = (''.join(self.FORMS[f](u, ''.join(k))) for k in itertools.product('kgms-12 ', repeat=n))
            return any(accepts(UNITS, t) is True and NOBLANK(t) is True for t in ts)
        return [dict(u=u, f=f, n=n) for u in self.STATE for f in self.FORMS for n in range(4) if some(u, f, n)]

    def inputs(self, case, eng):
        s = mk([c for p in self.FORMS[case['f']](case['u'], text('t', case['n'], 'kgms-12 ') if case['n'] else '') for c in chs(p)])
        eng.assume(conj(accepts(UNITS, s), NOBLANK(s)))
        return dict(t=s)

    def agree(self, case, inp):
        t, u = inp['t'], case['u']
        label = 'tendency of a constituent in %s' % u
        o = outcome(lambda: module('var_props').VarCompatObj('tendency_of_var_std', 'real', 'kind_a', t, [], 'one', False, 'var_std', 'real', 'kind_a', u, [], 'two', False, env(),
                                                             is_tend=True).compat)
        if not o.ok:
            return [rejected(o, label)]
        v = concretize(t)
        out = []
        if o.val:
            fs, ft = factors(u), factors(v)
            want = dict(fs or {})
            want['s'] = want.get('s', 0) - 1
            out.append((ft is not None and ft == {k: x for k, x in want.items() if x}, '%s: units %r accepted' % (label, v)))
        else:
            out.append((v not in (u + ' s-1',) + (('s-1',) if u == '1' else ()), '%s: units %r rejected' % (label, v)))
        return out


def _rules():
    """Pairs the documentation of the conversion tools lists."""
    fam = [('mm', 'm'), ('cm', 'm'), ('um', 'm'), ('km', 'm'), ('mm', 'km'), ('s', 'min'), ('s', 'h'), ('h', 'd'), ('s', 'd'), ('K', 'C'), ('kg kg-1', 'g kg-1'),
           ('radian', 'degree'), ('radian', 'degree_north'), ('radian', 'degree_east'), ('Pa', 'hPa'), ('m s-1', 'km h-1'), ('W m-2', 'erg cm-2 s-1')]
    return set(fam) | {(b, a) for a, b in fam}


RULES = _rules()
HARNESSES = dict(capgen=Capgen(), prebuild=Prebuild(), names=Names(), kinds=Kinds(), tendency=Tendency())


def main(tier, only=None):
    return pmain('P12', tier, 'model_checking',
                 ['real arithmetic is exact; literals are exact when their kind carries the precision of the result and rounded to 24 bits otherwise',
                  'the physical table (factors and offsets to a base unit) in checks/P12.py is the oracle',
                  'quantities are real variables; rounding errors below a relative 1e-10 are not judged'],
                 [], ['see the per-harness bounds'], only)
