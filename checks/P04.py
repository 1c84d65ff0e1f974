"""P04: conditionally active variables."""
from vt.capgen.check import main as _main
from vt.pysym.check import Harness, outcome, harness_jobs
from vt.pysym.sym import text, mk, chs, same
from vt.pysym.grammar import disj, implies

H, HL = 'horizontal_dimension', 'horizontal_loop_extent'
KINDS = ['kind_phys=REAL64']


class Mandatory(Harness):
    """A scheme argument that is not optional cannot stand for a host variable that may be inactive."""
    functions = ('parse_host_model_files', 'parse_scheme_files', 'API.__init__', 'Suite.analyze', 'Group.analyze', 'Scheme.analyze', 'SuiteObject.match_variable',
                 'Var.conditional')
    bounds = ('up to three uses of a host scalar, array or derived-type component in one or two groups and suites, any phase, any intent, each optional or not, with or without '
              'unit conversion; the condition: none, true, false (any mixture of cases), a flag, a comparison')
    budget = 800
    LAY = {'one': [[['x']]], 'two schemes': [[['x', 'x']]], 'groups': [[['x'], ['x']]], 'suites': [[['x']], [['x']]], 'subcycle': [[['x', ['x']]]]}

    def cases(self, tier):
        out = [dict(lay=k, where=w, phase='run') for k in self.LAY for w in ('array', 'units')]
        out += [dict(lay='two schemes', where='array', phase=p) for p in ('initialize', 'timestep_initial', 'timestep_final', 'finalize')]
        return out + [dict(lay=k, where=w, phase=p) for k in ('one', 'two schemes') for w in ('scalar', 'component') for p in ('run', 'initialize')]

    def inputs(self, case, eng):
        d = dict(active=eng.pick(['', '.true.', '.false.', 'a_flag', '( a_number > 2 )']))
        if d['active'] in ('.true.', '.false.'):
            d['active'] = mk(list('.') + chs(text('c', 1, d['active'][1] + d['active'][1].upper())) + list(d['active'][2:]))
        for i in range(str(self.LAY[case['lay']]).count("'x'")):
            d['i%d' % i] = eng.pick(['in', 'out', 'inout'])
            d['o%d' % i] = eng.choose(2)
        return d

    def agree(self, case, inp):
        from vt.capgen.spec import V, Mod, Scheme, Suite, Spec, Sub, Ddt
        from vt.pysym.gen import generate
        ph, wh = case['phase'], case['where']
        hd = HL if ph == 'run' else H
        dims = (H,) if wh != 'scalar' else ()
        hv = V('hx', 'the_quantity', 'm', dims=dims, active='<active>' if len(inp['active']) else None)
        host = [V('ncols', H, 'count', 'integer'), V('hf', 'a_flag', 'flag', 'logical'), V('hn', 'a_number', 'count', 'integer')]
        mods = [Mod('host_data', host)]
        if wh == 'component':
            mods = [Mod('host_types', None, ddts=[Ddt('h_t', [hv])]), Mod('host_data', host + [V('hs', 'the_object', None, 'h_t')], uses=['host_types'])]
        else:
            host.append(hv)
        sch = []

        def items(its):
            out = []
            for it in its:
                if isinstance(it, list):
                    out.append(Sub('2', items(it)))
                else:
                    i = len(sch)
                    sch.append(Scheme('s%d' % i, {ph: [V('x', 'the_quantity', 'km' if wh == 'units' else 'm', dims=(hd,) if dims else (), intent='<i%d>' % i, optional=bool(inp['o%d' % i])),
                                                       V('n', HL if ph == 'run' else H, 'count', 'integer', intent='in')]}))
                    out.append('s%d' % i)
            return out
        suites = [Suite('su%d' % k, [('g%d' % j, items(g)) for j, g in enumerate(su)]) for k, su in enumerate(self.LAY[case['lay']])]
        o = outcome(generate, Spec('act', mods, sch, suites), inp, KINDS)
        always = disj(len(inp['active']) == 0, same(inp['active'].lower(), '.true.') if len(inp['active']) else False)
        every = all(inp['o%d' % i] for i in range(len(sch)))
        label = '%s, %s' % (case['lay'], wh)
        return [(o.ok or o.exc in ('ParseSyntaxError', 'CCPPError', 'ParseInternalError'), '%s: crashed with %s' % (label, o.exc)),
                (disj(always, every, not o.ok), '%s: an argument that is not optional takes a variable that may be inactive' % label),
                (implies(disj(always, every), o.ok), '%s: rejected' % label)]


HARNESSES = dict(mandatory=Mandatory())


def main(tier, only=None):
    if only and set(only) <= set(HARNESSES):
        from vt.pysym.check import main as pmain
        return pmain('P04', tier, 'model_checking', [], [], [], only)
    return _main('P04', tier, extra_jobs=lambda ck, budget: harness_jobs(ck, 'P04', tier))
