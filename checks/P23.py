"""P23: the reports of the datatable query tool agree with the generated suites."""
import os
from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.sym import char, mk, ask, same, chs

H, HL = 'horizontal_dimension', 'horizontal_loop_extent'
WORDS = ('in', 'out', 'inout')

# suites: name -> [(group, [scheme...])]; a scheme is a letter; PHASES: which variables each scheme's entry points use.
# Variables: x y (host), t (written by a scheme first, not the host's).
SCHEMES = {'a': dict(run='xy'), 'b': dict(run='x', initialize='y'), 'c': dict(initialize='x', finalize='x'), 'd': dict(run='y', timestep_initial='x', timestep_final='y'),
           'e': dict(run='t'), 'f': dict(run='tx'), 'z': dict(run='')}
LAYOUTS = {
    'one': dict(su=[('g', 'a')]),
    'same groups': dict(sa=[('g', 'a')], sb=[('g', 'd')]),
    'shared schemes': dict(sa=[('g', 'bz'), ('h', 'b')], sb=[('g', 'z')]),
    'no run phase': dict(sa=[('g', 'cz')], sb=[('g', 'zb')]),
    'nothing': dict(sa=[('g', 'z')], sb=[('g', 'a')]),
    'suite variable': dict(sa=[('g', 'e'), ('h', 'f')], sb=[('g', 'b')]),
    'prefixes': dict(s=[('g', 'b')], s_g=[('h', 'd')]),
    'group named like a suite': dict(s=[('t', 'b')], t=[('s', 'd')]),
    'subcycles': dict(s=[('g', ['z', ['a', ['b']]])]),
    'part like a call list': dict(s=[('g', 'b'), ('g_call_list', 'd')]),
    'suite like a part': dict(s=[('g', 'b')], s_initialize=[('g', 'd')]),
}
LONG = {'three suites': dict(sa=[('g', 'b')], sb=[('g', 'd'), ('h', 'e')], sc=[('h', 'z'), ('g', 'b')]),
        'three groups': dict(sa=[('g', 'b'), ('h', 'b'), ('i', 'd')])}


class Kept:
    """Stands in for the written file: the reports read the tree the generator made."""
    def __init__(self, root):
        self.root = root

    def write(self, name):
        Kept.tree[name] = self.root


Kept.tree = {}


class Reports(Harness):
    functions = ('generate_ccpp_datatable', '_new_scheme_entry', '_new_var_entry', '_new_variable_dictionary', '_add_suite_object_dictionaries', '_add_suite_object',
                 '_add_dependencies', '_add_generated_files', 'datatable_report', '_retrieve_variable_list', '_retrieve_process_list', '_retrieve_module_list',
                 '_retrieve_dependencies', '_retrieve_suite_list', '_retrieve_ccpp_files', '_is_variable_protected', '_find_var_dictionary')
    bounds = ('one to three suites of one to three groups and up to four schemes; every intent of up to four uses of two host variables and one suite variable, a standard '
              'name with a symbolic character, protected or not, process types and dependencies from short lists with coincidences, any separator character')
    budget = 700

    def cases(self, tier):
        la = dict(LAYOUTS, **(LONG if tier == 'thorough' else {}))
        out = []
        for k in la:
            for what in ('intents', 'lists'):
                out.append(dict(lay=k, what=what))
        return out + [dict(lay='same groups', what=w, file=True) for w in ('intents', 'lists')]

    def layout(self, case):
        return LAYOUTS.get(case['lay']) or LONG[case['lay']]

    def schemes(self, case):
        def flat(x):
            for y in x:
                if isinstance(y, list):
                    yield from flat(y)
                else:
                    yield y
        return sorted({s for su in self.layout(case).values() for _, it in su for s in flat(it)})

    def inputs(self, case, eng):
        d = dict(px=False, cx='a')
        vary = case['what'] == 'intents'
        if vary:
            if not case.get('file'):
                d['cx'] = char('cx', 'ab')
                d['cx'] = mk([d['cx']])
            d['px'] = eng.pick([False, True])
            n = 0
        for s in self.schemes(case):
            for ph, vs in SCHEMES[s].items():
                for v in vs:
                    k = 'i_%s_%s_%s' % (s, ph, v)
                    if v == 't':
                        d[k] = 'out' if s == 'e' else 'in'
                    elif vary and n < 4:
                        d[k] = eng.pick(list(WORDS))
                        n += 1
                    else:
                        d[k] = 'inout' if v == 'y' else 'in'
            if not vary:
                d['p_' + s] = eng.pick(['', 'rain', 'cloud']) if s in 'ab' else '' if s == 'z' else 'rain'
                d['d_' + s] = eng.pick([(), ('f1.F90',), ('f2.F90', 'f1.F90')]) if s in 'az' else ('f%s.F90' % s,)
        if not vary:
            d['dh'] = eng.pick([(), ('f1.F90',), ('f3.F90',)])
        d['sep'] = ',' if vary or case.get('file') else mk([char('sep', ',;: |')])
        return d

    def agree(self, case, inp):
        from vt.capgen.spec import V, Mod, Scheme, Suite, Spec, Sub
        from vt.pysym.gen import generate
        df = module('ccpp_datafile')
        px = inp['px']
        prot = {'x': ['protected = True'] if px else []}
        name = {'x': 'q<cx>_x', 'y': 'qa_y', 't': 'qa_t'}
        std = {k: mk(list(v.split('<cx>')[0]) + chs(inp['cx']) + list('_x')) if '<' in v else v for k, v in name.items()}
        host = [V('ncols', H, 'count', 'integer')] + [V('h' + v, name[v], 'm', dims=(H,), extra=prot.get(v, [])) for v in 'xy']
        sch = []
        for s in self.schemes(case):
            ent = {}
            for ph, vs in SCHEMES[s].items():
                hd = HL if ph == 'run' else H
                ent[ph] = ([V('n', hd, 'count', 'integer', intent='in')] if 't' in vs else []) + \
                    [V(v, name[v], 'm', dims=(hd,), intent=inp['i_%s_%s_%s' % (s, ph, v)]) for v in vs]
                if not ent[ph] and ph == 'run':
                    ent[ph] = [V('n', H, 'count', 'integer', intent='in')]
            sch.append(Scheme('sch_' + s, ent, module='mod_' + s if s in 'be' else None))

        def items(it):
            return [Sub('2', items(x)) if isinstance(x, list) else 'sch_' + x for x in it]
        lay = self.layout(case)
        spec = Spec('dt', [Mod('host_data', host)], sch, [Suite(su, [(g, items(it)) for g, it in gs]) for su, gs in lay.items()])
        spec.tlines, spec.alines = {}, {}
        for s in self.schemes(case):
            if inp.get('d_' + s):
                spec.tlines['sch_' + s] = ['  dependencies = ' + ','.join(inp['d_' + s])]
            if inp.get('p_' + s):
                for ph in SCHEMES[s]:
                    spec.alines[spec.schemes['sch_' + s].proc(ph)] = ['  process = ' + inp['p_' + s]]
        if inp.get('dh'):
            spec.tlines['host_data'] = ['  dependencies = ' + ','.join(inp['dh'])]
        res = {}
        files = (['/o/host_cap.F90'], ['/o/ccpp_%s_cap.F90' % su for su in lay], '/o/ccpp_kinds.F90', '/src')

        def then(g, d):
            f = os.path.join(d, 'datatable.xml')
            g.env._CCPPFrameworkEnv__datatable_file = f
            saved = df.PrettyElementTree, df._read_datatable
            if not case.get('file'):
                df.PrettyElementTree = Kept
                df._read_datatable = lambda n: Kept.tree[n]
            try:
                df.generate_ccpp_datatable(g.env, g.host, g.api, g.headers, g.tables, *files)
                for r in df._VALID_REPORTS:
                    if r['report'] == 'show':
                        continue
                    for v in (list(lay) + ['nosuch'] if r['type'] is str else [True]):
                        for ex in (False, True):
                            res[r['report'], v, ex] = df.datatable_report(f, df.DatatableReport(r['report'], v), inp['sep'], ex)
            finally:
                df.PrettyElementTree, df._read_datatable = saved
                Kept.tree.clear()
            res['dir'] = d
            return g
        o = outcome(generate, spec, inp, then=then)
        writes = any(inp['i_%s_%s_x' % (s, ph)] != 'in' for s in self.schemes(case) for ph, vs in SCHEMES[s].items() if 'x' in vs)
        if px and writes:
            return [(not o.ok, 'a protected variable may not be written')]
        if not o.ok:
            return [(False, 'generation fails with %s' % o.exc)]
        g = o.val
        out = []

        def listed(key, want, label, order=False):
            got = res[key]
            parts = self.split(got, inp['sep'])
            out.append((self.equal(parts, want, order), '%s: %s' % (key[0], label)))
        for ex in (False, True):
            listed(('ccpp_files', True, ex), [files[2], '/src/ccpp_constituent_prop_mod.F90', '/src/ccpp_hashable.F90', '/src/ccpp_hash_table.F90'] + files[0] + files[1], 'all files')
            listed(('host_files', True, ex), files[0], 'the host cap')
            listed(('suite_files', True, ex), files[1], 'the suite caps')
            listed(('utility_files', True, ex), [files[2], '/src/ccpp_constituent_prop_mod.F90', '/src/ccpp_hashable.F90', '/src/ccpp_hash_table.F90'], 'the utilities')
            listed(('suite_list', True, ex), list(lay), 'the suites', True)
            listed(('module_list', True, ex), [spec.schemes['sch_' + s].module for s in self.schemes(case)], 'the modules of the schemes')
            listed(('process_list', True, ex), ['%s=sch_%s' % (inp['p_' + s], s) for s in self.schemes(case) if inp.get('p_' + s)], 'each process once')
            deps = {x for s in self.schemes(case) for x in inp.get('d_' + s, ())} | set(inp.get('dh', ()))
            listed(('dependencies', True, ex), [os.path.join(res['dir'], x) for x in deps], 'each dependency once')
            hv = [v.get_prop_value('standard_name') for v in g.host.variable_list() if not (ex and v.get_prop_value('protected'))]
            listed(('host_variables', True, ex), hv, 'the host variables')
        protected = [std['x']] if px else []
        protected += ['horizontal_loop_begin', 'horizontal_loop_end']
        for su in list(lay) + ['nosuch']:
            use = []        # (standard name, intent) of every part of the suite
            if su != 'nosuch':
                for gr in g.suite(su).groups:
                    if gr.parts:
                        use += [(v.get_prop_value('standard_name'), v.get_prop_value('intent')) for v in gr.call_list.variable_list()]
                direct = self.direct(lay[su], inp, std)
                for v, i in direct:
                    out.append((any(same(n, v) is True or ask(same(n, v)) for n, _ in use), 'a variable used by a scheme is an argument of a part'))
            for ex in (False, True):
                def keep(n):
                    return not (ex and any(ask(same(n, p)) for p in protected))
                listed(('required_variables', su, ex), [n for n, i in use if keep(n)], 'the variables of the suite')
                listed(('input_variables', su, ex), [n for n, i in use if i in ('in', 'inout') and keep(n)], 'the input variables of the suite')
                listed(('output_variables', su, ex), [n for n, i in use if i in ('out', 'inout') and keep(n)], 'the output variables of the suite')
        return out

    @staticmethod
    def direct(gs, inp, std):
        def flat(x):
            for y in x:
                if isinstance(y, list):
                    yield from flat(y)
                else:
                    yield y
        return [(std[v], inp['i_%s_%s_%s' % (s, ph, v)]) for _, it in gs for s in flat(it) for ph, vs in SCHEMES[s].items() for v in vs if v != 't']

    @staticmethod
    def split(s, sep):
        out, cur_ = [], []
        c = chs(s)
        if not c:
            return []
        for x in c:
            if ask(same(mk([x]), sep)):
                out.append(mk(cur_))
                cur_ = []
            else:
                cur_.append(x)
        return out + [mk(cur_)]

    @staticmethod
    def equal(got, want, order):
        """As lists, or as sets without repetition."""
        w = []
        for x in want:
            if not any(ask(same(x, y)) for y in w):
                w.append(x)
        if len(w) != len(got):
            return False
        if order:
            return all(ask(same(a, b)) for a, b in zip(got, w))
        return all(any(ask(same(a, b)) for b in got) for a in w)


HARNESSES = dict(reports=Reports())


def main(tier, only=None):
    return pmain('P23', tier, 'model_checking', ['the variables of the parts are those of their argument lists (P26 decides their intents, P02 that they suffice)'], [], ['see the harness'], only)
