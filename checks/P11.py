"""P11: variables are matched only if they can stand for each other."""
import z3
from vt.engine import cur
from vt.pysym.check import Harness, module, outcome, main as pmain, text, mk
from vt.pysym.sym import chs, same, ask, concretize
from vt.pysym.grammar import conj, disj, neg, iff, implies, accepts
from checks.P12 import RULES

TYPES = ['real', 'integer', 'logical', 'character', 'complex', 'type_a', 'type_b']
KINDS = ['kind_a=REAL64', 'kind_b=REAL32', 'kind_c=REAL64']
WIDTH = {'kind_a': 64, 'kind_b': 32, 'kind_c': 64, None: 0}


def env():
    return module('framework_env').CCPPFrameworkEnv(None, ndict={'host_files': '', 'scheme_files': '', 'suites': ''}, kind_types=KINDS)


def alike(a, b):
    """Condition: two attribute values (possibly None) are the same text."""
    if a is None or b is None:
        return a is b
    return same(a, b)


def one_of(s, words):
    return disj(*[same(s, w) for w in words])


class Var:
    def __init__(self, name, typ, kind, units, dims, top):
        self.name, self.typ, self.kind, self.units, self.dims, self.top = name, typ, kind, units, dims, top

    def args(self, lname):
        return (self.name, self.typ, self.kind, self.units, list(self.dims), lname, self.top)


def compat(a, b):
    return module('var_props').VarCompatObj(*(a.args('one') + b.args('two') + (env(),)))


def truth(x):
    return x if isinstance(x, bool) else bool(x)


def width_is(kind, w):
    if kind is None:
        return w == 0
    return one_of(kind, [k for k, v in WIDTH.items() if v == w and k])


def same_kind(a, b):
    return disj(*[conj(width_is(a, w), width_is(b, w)) for w in (0, 32, 64)])


def charlen(kind):
    """Length text of a character declaration."""
    return [c for c in chs(kind)[4:] if not ask(same(mk([c]), ' '))] if kind is not None else None


def same_len(a, b):
    if a is None or b is None:
        return False
    x, y = charlen(a), charlen(b)
    star = disj(same(mk(x), '*'), same(mk(y), '*'))
    return disj(star, same(mk(x), mk(y)))


HORIZ = ['horizontal_dimension', 'horizontal_loop_extent', 'ccpp_constant_one:horizontal_loop_extent', 'ccpp_constant_one:horizontal_dimension',
         'horizontal_loop_begin:horizontal_loop_end']


def dim_class(d):
    """A dimension as (lower, upper) with all horizontal ones alike."""
    if isinstance(d, str) and d in HORIZ:
        return ('', 'H')
    x = chs(d)
    pre = 'ccpp_constant_one:'
    if ':' not in x:
        return (pre[:-1], d)
    i = x.index(':')
    return (mk(x[:i]), mk(x[i + 1:]))


def same_dim(a, b):
    a, b = dim_class(a), dim_class(b)
    return conj(same(a[0], b[0]), same(a[1], b[1]))


def same_dims(a, b):
    return conj(len(a) == len(b), *[same_dim(x, y) for x, y in zip(a, b)])


def permuted(a, b):
    import itertools
    if len(a) != len(b):
        return False
    return disj(*[same_dims([a[i] for i in p], b) for p in itertools.permutations(range(len(a)))])


def expected(a, b):
    """(compatible, equivalent) by the documented rules."""
    names = alike(a.name, b.name)
    types = a.typ == b.typ
    if types and a.typ == 'character':
        kc, ke = same_len(a.kind, b.kind), True
    else:
        kc, ke = True, same_kind(a.kind, b.kind)
    none = lambda u: disj(same(u, 'none'), same(u, 'None'), same(u, 'NONE'))
    ue = disj(same(a.units, b.units), conj(none(a.units), none(b.units)))
    uc = disj(ue, *[conj(same(a.units, p), same(b.units, q)) for p, q in RULES])
    dc, de = permuted(a.dims, b.dims), same_dims(a.dims, b.dims)
    comp = conj(names, types, kc, uc, dc)
    return comp, conj(comp, ke, ue, a.top == b.top, de), ke, ue


def verdicts(a, b, label):
    comp, equiv, ke, ue = expected(a, b)
    out, got = [], []
    for x, y, way in ((a, b, ''), (b, a, ' (asked the other way round)')):
        o = outcome(compat, x, y)
        l = label + way
        if not o.ok:
            out += [(o.exc in ('ParseSyntaxError', 'CCPPError'), '%s: crashed with %s' % (l, o.exc)), (neg(comp), '%s: a supported pair is rejected' % l)]
            got.append((False, False))
            continue
        c, e = truth(o.val.compat), truth(o.val.equiv)
        got.append((c, c and e))
        out.append((iff(c, comp), '%s: compatible verdict is wrong' % l))
        out.append((implies(c, iff(e, equiv)), '%s: equivalent verdict is wrong' % l))
        out.append((c or not truth(bool(o.val)), '%s: an incompatible pair is true' % l))
        if c:
            if a.typ != 'character':
                out.append((iff(truth(o.val.has_kind_transforms), neg(ke)), '%s: kind conversion wrongly (not) required' % l))
            out.append((iff(truth(o.val.has_unit_transforms), neg(ue)), '%s: unit conversion wrongly (not) required' % l))
            out.append((truth(o.val.has_vert_transforms) == (a.top != b.top), '%s: vertical flip wrongly (not) required' % l))
        else:
            out.append((truth(len(o.val.incompat_reason) > 0), '%s: rejected without a reason' % l))
    out.append((got[0] == got[1], '%s: the verdict depends on which of the two is asked' % label))
    return out


class Attributes(Harness):
    """Type, kind, character length, units, vertical direction and name of scalars and columns."""
    functions = ('VarCompatObj.__init__', 'VarCompatObj._get_kind_convstrs', 'VarCompatObj._get_unit_convstrs', 'VarCompatObj.char_kind_check', 'VarCompatObj.units_to_string')
    bounds = '7 types in all pairs; one symbolic character in each name, kind, unit or character length (2-3 for lengths); both directions'

    def cases(self, tier):
        out = [dict(t1=a, t2=b, what='types') for a in TYPES for b in TYPES]
        out += [dict(t1=t, t2=t, what=w) for t in ('real', 'integer', 'complex') for w in ('kinds', 'units', 'both')]
        out += [dict(t1='logical', t2='logical', what='kinds')]
        out += [dict(t1='real', t2='real', what=w) for w in ('units2', 'none', 'nokind')]
        k = (1, 2, 3) if tier == 'thorough' else (1, 2)
        out += [dict(t1='character', t2='character', what='len%d%d' % (i, j)) for i in k for j in k]
        return out

    def inputs(self, case, eng):
        w = case['what']
        d = dict(n1=mk(list('var_') + chs(text('n1', 1, 'ab'))), n2=mk(list('var_') + chs(text('n2', 1, 'ab'))),
                 t1=eng.bool('t1'), t2=eng.bool('t2'))
        kinds = w in ('kinds', 'both', 'types')
        for i in '12':
            t = case['t' + i]
            d['k' + i] = mk(list('kind_') + chs(text('k' + i, 1, 'abc'))) if kinds else 'kind_a'
            if t == 'character':
                d['k' + i] = mk(list('len=') + chs(text('l' + i, int(w[2 + int(i)]), '*56 '))) if w.startswith('len') else 'len=16'
                if w.startswith('len'):
                    eng.assume(accepts(LEN, mk(chs(d['k' + i])[4:])))
            elif t.startswith('type'):
                d['k' + i] = None
            d['u' + i] = text('u' + i, 1, 'mKCshd1') if w in ('units', 'both') else text('u' + i, 2, 'mckuPas') if w == 'units2' else \
                text('u' + i, 4, 'nNoOeE') if w == 'none' else 'm'
        if w == 'none':
            for i in '12':
                eng.assume(same(mk([c for c in chs(d['u' + i].lower())]), 'none'))
        if w == 'nokind':
            d['k1'] = None
        return d

    def agree(self, case, inp):
        t1, t2 = (ask(x) if not isinstance(x, bool) else x for x in (inp['t1'], inp['t2']))
        v = [Var(inp['n' + i], case['t' + i], inp['k' + i], inp['u' + i], [], t) for i, t in (('1', t1), ('2', t2))]
        if case['what'] == 'none':   # only "none" itself may be written in any case
            a, b = v
            out = []
            for x, y in ((a, b), (b, a)):
                o = outcome(compat, x, y)
                out.append((o.ok, 'spellings of none are rejected'))
                if o.ok:
                    out.append((iff(truth(o.val.compat), same(a.name, b.name)), 'spellings of none differ'))
            return out
        return verdicts(v[0], v[1], '%s and %s' % (case['t1'], case['t2']))


from vt.pysym.grammar import Set, Many, Alt, Seq
LEN = Seq(Many(Set(' ')), Alt(Set('*'), Many(Set('56'), 1)), Many(Set(' ')))


class Dimensions(Harness):
    """Number, names and order of dimensions."""
    functions = ('VarCompatObj._get_dim_transforms', 'VarCompatObj.__regularize_dimensions', 'is_horizontal_dimension', 'DimTransform')
    bounds = 'up to 3 (thorough 4) dimensions per side out of horizontal, vertical and two symbolic ones, every order, with and without explicit lower bounds'

    def cases(self, tier):
        one = ['', 'H', 'E', 'V', 'x', 'HV', 'VH', 'EV', 'Hx', 'xH', 'xy', 'BV', 'HX', 'EHV'[1:]]
        three = ['HVx', 'xHV', 'VxH', 'EVx', 'Hxy', 'HVX']
        if tier == 'thorough':
            three += ['xyH', 'HxV', 'HVxy', 'yxVH', 'XyEV']
        al = one + three
        return [dict(a=a, b=b) for i, a in enumerate(al) for b in al[i:]]

    def inputs(self, case, eng):
        d = {}
        for s in 'ab':
            for c in sorted(set(case[s].lower()) & set('xy')):
                d[s + c] = text(s + c, 2, 'xyz')
        return d

    def dims(self, s, case, inp):
        lit = dict(H='horizontal_dimension', E='horizontal_loop_extent', B='horizontal_loop_begin:horizontal_loop_end', V='vertical_layer_dimension')
        return [lit[c] if c in lit else mk(chs('dim_') + chs(inp[s + c])) if c.islower() else mk(chs('ccpp_constant_one:dim_') + chs(inp[s + c.lower()]))
                for c in case[s]]

    def agree(self, case, inp):
        a, b = (Var('var', 'real', 'kind_a', 'm', self.dims(s, case, inp), False) for s in 'ab')
        return verdicts(a, b, 'dimensions (%s) and (%s)' % (case['a'], case['b']))


H, HL, L, LI = 'horizontal_dimension', 'horizontal_loop_extent', 'vertical_layer_dimension', 'vertical_interface_dimension'


class Argument(Harness):
    """Whole analysis of a host with one variable and one or two schemes with an argument of that standard name."""
    functions = ('parse_host_model_files', 'parse_scheme_files', 'API.__init__', 'Suite.analyze', 'Group.analyze', 'Scheme.analyze', 'SuiteObject.match_variable',
                 'SuiteObject.match_dimensions', 'VarDictionary.add_variable', 'Var.compatible', 'VarCompatObj.*')
    bounds = ('one host or suite variable and one or two arguments; type pairs, one symbolic character in kinds, units, lengths and dimension names, '
              'up to 3 dimensions; run and init phases')
    budget = 800
    HD = {'': (), 'H': (H,), 'V': (L,), 'HV': (H, L), 'HI': (H, LI), 'VH': (L, H), 'x': ('dim_<hx>',), 'Hx': (H, 'dim_<hx>'), 'xH': ('dim_<hx>', H), 'HVx': (H, L, 'dim_<hx>')}
    SD = {'': (), 'H': (HL,), 'V': (L,), 'HV': (HL, L), 'HI': (HL, LI), 'VH': (L, HL), 'x': ('dim_<sx>',), 'Hx': (HL, 'dim_<sx>'), 'xH': ('dim_<sx>', HL), 'HVx': (HL, L, 'dim_<sx>')}

    def cases(self, tier):
        out = []
        for own in ('host', 'suite'):
            out += [dict(own=own, t1=t, t2=u, d1='H', d2='H') for t, u in
                    (('real', 'real'), ('integer', 'integer'), ('real', 'integer'), ('logical', 'integer'), ('integer', 'real'), ('logical', 'logical'))]
            out += [dict(own=own, t1='character', t2='character', d1='', d2='')]
            out += [dict(own=own, t1='real', t2='real', d1=a, d2=b, dims=True) for a, b in
                    (('', ''), ('', 'H'), ('H', ''), ('x', 'x'), ('Hx', 'Hx'), ('HV', 'HI'), ('HV', 'VH'), ('H', 'HV'), ('Hx', 'xH'), ('x', 'H'), ('V', 'H'), ('H', 'V'),
                     ('HVx', 'Hx'), ('HVx', 'HVx'), ('Hx', 'HV'), ('x', ''), ('', 'x'))]
        if tier == 'quick':
            out = [c for c in out if c['own'] == 'host' or c['t1'] != c['t2'] or c['d1'] != c['d2'] or c['d1'] in ('x', 'H')]
        return out

    def inputs(self, case, eng):
        d = {}
        for i in '12':
            t = case['t' + i]
            if t == 'character':
                d['k' + i] = mk(list('len=') + chs(text('l' + i, 2, '*56 ')))
                eng.assume(accepts(LEN, mk(chs(d['k' + i])[4:])))
            elif not case.get('dims'):
                d['k' + i] = mk(list('kind_') + chs(text('k' + i, 1, 'abc')))
            d['u' + i] = text('u' + i, 1, 'mKCsd') if not case.get('dims') and t != 'character' and t == case['t' + ('2' if i == '1' else '1')] != 'logical' else 'm'
        for s in ('h', 's'):
            if 'x' in case['d1' if s == 'h' else 'd2']:
                d[s + 'x'] = text(s + 'x', 1, 'xyz')
        return d

    def spec(self, case):
        from vt.capgen.spec import V, Mod, Scheme, Suite, Spec
        host = [V('ncols', H, 'count', 'integer'), V('pver', L, 'count', 'integer'), V('pverp', LI, 'count', 'integer')]
        host += [V('n' + c, 'dim_' + c, 'count', 'integer') for c in 'xyz']

        def arg(i, intent=None, dims=()):
            t = case['t' + i]
            k = '<k%s>' % i if t == 'character' or not case.get('dims') else 'kind_a'
            return V('hvar' if i == '1' else 'svar', 'the_quantity', '<u%s>' % i, t, k, dims=dims, intent=intent)
        if case['own'] == 'host':
            host.append(arg('1', None, self.HD[case['d1']]))
            schemes = [Scheme('s_use', {'run': [arg('2', 'in', self.SD[case['d2']])]})]
        else:
            hd = tuple(HL if x == H else x for x in self.HD[case['d1']])
            sizes = [V('nc', HL, 'count', 'integer', intent='in'), V('nl', L, 'count', 'integer', intent='in'), V('ni', LI, 'count', 'integer', intent='in')]
            sizes += [V('n' + c, 'dim_' + c, 'count', 'integer', intent='in') for c in 'xyz']
            schemes = [Scheme('s_make', {'run': sizes + [arg('1', 'out', hd)]}), Scheme('s_use', {'run': [arg('2', 'in', self.SD[case['d2']])]})]
        return Spec('inc', [Mod('host_data', host)], schemes, [Suite('su', [('g1', [s.name for s in schemes])])])

    def agree(self, case, inp):
        from vt.pysym.gen import generate
        o = outcome(generate, self.spec(case), inp, KINDS)
        k = lambda i: inp.get('k' + i, 'kind_a')
        pats = [[x if '<' not in x else mk(chs('dim_') + chs(inp[x[5:-1]])) for x in t[c]] for t, c in ((self.HD, case['d1']), (self.SD, case['d2']))]
        a, b = (Var('q', case['t' + i], k(i), inp['u' + i], p, False) for i, p in zip('12', pats))
        comp, _, _, _ = expected(a, b)
        comp = conj(comp, same_dims(a.dims, b.dims)) # permuted dimensions have no conversion of their own
        if case['d1'] == 'HVx':  # an argument without the vertical dimension is called once per layer
            comp = disj(comp, conj(same_dims([a.dims[0], a.dims[2]], b.dims)))
        label = '%s variable %s(%s), argument %s(%s)' % (case['own'], case['t1'], case['d1'], case['t2'], case['d2'])
        out = [(o.ok or o.exc in ('ParseSyntaxError', 'CCPPError', 'ParseInternalError'), '%s: crashed with %s' % (label, o.exc)),
               (implies(o.ok, comp), '%s: incompatible argument accepted' % label), (implies(comp, o.ok), '%s: compatible argument rejected' % label)]
        return out


class Protected(Harness):
    """Schemes using a host variable that may be declared protected."""
    functions = ('parse_host_model_files', 'parse_scheme_files', 'API.__init__', 'Suite.analyze', 'Group.analyze', 'Scheme.analyze', 'SuiteObject.match_variable')
    bounds = ('a scalar or array variable of a host module, a host table or a component of a derived type, and up to three uses of it in one or two groups and suites, '
              'in any phase, with any intents, the host variable protected or not')
    budget = 800
    LAY = {'one': [[['x']]], 'two schemes': [[['x', 'x']]], 'three': [[['x', 'x', 'x']]], 'groups': [[['x'], ['x']]], 'suites': [[['x']], [['x']]], 'subcycle': [[['x', ['x']]]]}

    def cases(self, tier):
        out = [dict(lay=k, where='array', phase='run') for k in self.LAY]
        out += [dict(lay='two schemes', where='array', phase=p) for p in ('initialize', 'timestep_initial', 'timestep_final', 'finalize')]
        out += [dict(lay='two schemes', where=w, phase=p) for w in ('scalar', 'table', 'component', 'units', 'optional') for p in ('run', 'initialize')]
        return out

    def inputs(self, case, eng):
        d = dict(prot=eng.pick(['True', 'False', '.true.', '.false.', '']))
        n = str(self.LAY[case['lay']]).count("'x'")
        for i in range(n):
            d['i%d' % i] = eng.pick(['in', 'out', 'inout'])
            d['l%d' % i] = text('l%d' % i, 1, 'ab') if i < 2 else 'a'
        return d

    def agree(self, case, inp):
        from vt.capgen.spec import V, Mod, Scheme, Suite, Spec, Sub, Ddt
        from vt.pysym.gen import generate
        ph, wh = case['phase'], case['where']
        hd = HL if ph == 'run' else H
        extra = ['protected = ' + inp['prot']] if inp['prot'] else []
        dims = (H,) if wh not in ('scalar', 'table') else ()
        hv = V('hx', 'the_quantity', 'm', dims=dims, extra=extra, active='a_flag' if wh == 'optional' else None)
        host = [V('ncols', H, 'count', 'integer'), V('hf', 'a_flag', 'flag', 'logical')]
        mods = [Mod('host_data', host)]
        ctl = []
        if wh == 'table':
            ctl = [hv]
        elif wh == 'component':
            mods = [Mod('host_types', None, ddts=[Ddt('h_t', [hv])]), Mod('host_data', host + [V('hs', 'the_object', None, 'h_t')], uses=['host_types'])]
        else:
            host.append(hv)
        sch = []

        def items(its):
            out = []
            for it in its:
                if isinstance(it, list):
                    out.append(Sub('2', items(it)))
                else:
                    i = len(sch)
                    sch.append(Scheme('s%d' % i, {ph: [V('<l%d>' % i, 'the_quantity', 'km' if wh == 'units' else 'm', dims=(hd,) if dims else (), intent='<i%d>' % i,
                                                         optional=wh == 'optional')]}))
                    out.append('s%d' % i)
            return out
        suites = [Suite('su%d' % k, [('g%d' % j, items(g)) for j, g in enumerate(su)]) for k, su in enumerate(self.LAY[case['lay']])]
        o = outcome(generate, Spec('prot', mods, sch, suites, ctl_extra=ctl), inp, KINDS)
        prot = inp['prot'] in ('True', '.true.')
        writes = any(v != 'in' for k, v in inp.items() if k[0] == 'i')
        label = '%s, %s' % (case['lay'], wh)
        return [(o.ok or o.exc in ('ParseSyntaxError', 'CCPPError', 'ParseInternalError'), '%s: crashed with %s' % (label, o.exc)),
                (not (o.ok and prot and writes), '%s: a protected variable may be written' % label), (o.ok or (prot and writes), '%s: rejected' % label)]


HARNESSES = dict(attributes=Attributes(), dimensions=Dimensions(), argument=Argument(), protected=Protected())


def main(tier, only=None):
    return pmain('P11', tier, 'model_checking',
                 ['the documented conversions are those of RULES in checks/P12.py'],
                 [], ['see the per-harness bounds'], only)
