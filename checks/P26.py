"""P26: the combined intent of a shared variable covers every scheme's use of it."""
from vt.pysym.check import Harness, outcome, main as pmain
from vt.pysym.sym import text, mk, chs, concretize

H, HL = 'horizontal_dimension', 'horizontal_loop_extent'
WORDS = ('in', 'out', 'inout')
STD = dict(x='the_shared_quantity', y='another_quantity', n='dim_shared', f='flag_shared')


def join(uses):
    """The intent of a variable used in these ways."""
    s = set(uses)
    return s.pop() if len(s) == 1 else 'inout'


# A layout: groups of (phase -> list of uses per scheme).  A use is the list of variables of one scheme: x and y are plain arguments,
# N is an argument dimensioned by n, F an optional argument the host declares active only if f holds; n and f are also arguments.
LAYOUTS = {
    'two': [['x', 'x']], 'three': [['x', 'x', 'x']], 'mixed': [['xy', 'x', 'yx']], 'dimension first': [['N', 'n', 'x']], 'dimension last': [['n', 'N']],
    'flag first': [['F', 'f', 'x']], 'flag last': [['f', 'F']], 'subcycle': [['x', ['x', 'x']]], 'nested': [[['x', ['xy']], 'yx']],
    'groups': [['x', 'x'], ['x']], 'three groups': [['x'], ['x'], ['x']], 'again': [['x', 'x', 0]],
    'dimension of another group': [['n'], ['N']], 'both': [['Nf', 'n', 'F']],
}
LONG = {'four': [['x', 'x', 'x', 'x']], 'two groups of two': [['xy', 'y'], ['y', 'x']], 'four groups': [['x'], ['x'], ['x'], ['x']],
        'subcycles': [[['x'], ['x', 'x'], 'x']], 'dimension thrice': [['n', 'N', 'n', 'xN']]}


class Combined(Harness):
    functions = ('parse_scheme_files', 'API.__init__', 'Suite.analyze', 'Group.analyze', 'SuiteObject.add_call_list_variable', 'SuiteObject.add_variable_to_call_tree',
                 'CallList.add_vars', 'CallList.add_variable', 'VarDictionary.add_variable', 'Var.adjust_intent', 'Var.clone', 'Var.write_def')
    bounds = ('up to 4 uses of a variable by the schemes of 1-3 groups (thorough: 4 groups), in sequences and subcycles; every combination of intents; '
              'local names symbolic (with more than 3 uses those of the first two schemes); run phase, and the other phases for one group')
    budget = 700
    strict = False

    def cases(self, tier):
        la = dict(LAYOUTS, **(LONG if tier == 'thorough' else {}))
        out = [dict(lay=k, phase='run') for k in la]
        out += [dict(lay=k, phase='run', debug=True) for k in ('three', 'dimension first', 'dimension last', 'flag last', 'both')]
        out += [dict(lay=k, phase=p) for k in ('two', 'dimension first', 'three groups') for p in ('initialize', 'timestep_initial', 'timestep_final', 'finalize')]
        return out

    def layout(self, case):
        return (LAYOUTS.get(case['lay']) or LONG[case['lay']])

    def uses(self, items):
        for it in items:
            if isinstance(it, list):
                yield from self.uses(it)
            else:
                yield it

    def inputs(self, case, eng):
        d = {}
        i = 0
        total = sum(len(u) for g in self.layout(case) for u in self.uses(g) if not isinstance(u, int))
        for g in self.layout(case):
            for u in self.uses(g):
                if isinstance(u, int):
                    continue
                k = 0
                for c in u:
                    d['i%d%s' % (i, c)] = eng.pick(list(WORDS))
                    d['l%d%s' % (i, c)] = mk([chs(text('l%d%s' % (i, c), 1, 'ab'))[0] if total < 4 or i < 2 and c == u[0] else 'a', 'wz'[k]])   # names differ within a scheme
                    k += 1
                i += 1
        return d

    def agree(self, case, inp):
        from vt.capgen.spec import V, Mod, Scheme, Suite, Spec, Sub
        from vt.pysym.gen import generate
        ph = case['phase']
        hd = HL if ph == 'run' else H
        host = [V('ncols', H, 'count', 'integer'), V('hn', STD['n'], 'count', 'integer'), V('hf', STD['f'], 'flag', 'logical'),
                V('hx', STD['x'], 'm', dims=(H,)), V('hy', STD['y'], 'm', dims=(H,)), V('hz', 'sized_quantity', 'm', dims=(STD['n'],)),
                V('hw', 'active_quantity', 'm', dims=(H,), active=STD['f'])]
        schemes = []
        groups, want = [], []

        def arg(i, c):
            a = dict(intent='<i%d%s>' % (i, c))
            l = '<l%d%s>' % (i, c)
            if c in 'xy':
                return V(l, STD[c], 'm', dims=(hd,), **a)
            if c == 'n':
                return V(l, STD['n'], 'count', 'integer', **a)
            if c == 'f':
                return V(l, STD['f'], 'flag', 'logical', **a)
            if c == 'N':
                return V(l, 'sized_quantity', 'm', dims=(STD['n'],), **a)
            return V(l, 'active_quantity', 'm', dims=(hd,), optional=True, **a)

        def items(its, tab):
            out = []
            for it in its:
                if isinstance(it, list):
                    out.append(Sub('2', items(it, tab)))
                    continue
                if isinstance(it, int):
                    s = schemes[it]
                else:
                    i = len(schemes)
                    s = Scheme('s%d' % i, {ph: [arg(i, c) for c in it]})
                    s.uses_ = [(c, inp['i%d%s' % (i, c)]) for c in it]
                    schemes.append(s)
                for c, w in s.uses_:
                    std = {'N': 'sized_quantity', 'F': 'active_quantity'}.get(c) or STD[c]
                    tab.setdefault(std, []).append(w)
                    if c == 'F' or c == 'N' and case.get('debug'):    # read by the cap
                        tab.setdefault(STD[c.lower()], []).append('in')
                out.append(s.name)
            return out
        for gi, g in enumerate(self.layout(case)):
            tab = {}
            groups.append(('g%d' % gi, items(g, tab)))
            want.append(tab)
        spec = Spec('intents', [Mod('host_data', host)], schemes, [Suite('su', groups)])
        o = outcome(generate, spec, inp, debug=case.get('debug', False))
        if not o.ok:
            return [(False, 'generation fails with %s' % o.exc)]
        out = []
        su = o.val.suite('su')
        parts = [g for g in su.groups if g.phase() == ph]
        if ph != 'run':       # one part for the whole suite
            tab = {}
            for t in want:
                for k, v in t.items():
                    tab.setdefault(k, []).extend(v)
            want = [tab]
        out.append((len(parts) == len(want), 'the number of parts'))
        total = {}
        for part, tab in zip(parts, want):
            for std in sorted(tab):
                v = part.call_list.find_variable(standard_name=std, any_scope=False)
                w = join(tab[std])
                first = std not in total
                total.setdefault(std, []).append(w)
                if v is None:
                    out.append((False, '%s is not an argument of the part' % std))
                    continue
                got = v.get_prop_value('intent')
                if first and not self.strict and got != w:
                    w = join([u for t in want for u in t.get(std, ())])      # known finding, shown by Widened
                out.append((got == w, 'the intent of %s for uses %s' % (std, ', '.join(sorted(tab[std])))))
                out.append((self.declared(v, part) == w, 'the declared intent'))
        for std in sorted(total):
            v = o.val.api.call_list(ph).find_variable(standard_name=std, any_scope=False)
            out.append((v is not None and v.get_prop_value('intent') == join(total[std]), 'the intent of the phase for uses %s' % ', '.join(sorted(total[std]))))
        return out

    @staticmethod
    def declared(v, part):
        from vt.pysym.files import OutFile

        class Out(OutFile):
            def write(self, s, indent=0, continue_line=False):
                OutFile.write(self, s)
        f = Out()
        v.write_def(f, 1, part, dummy=True)
        t = str(concretize(f.text()))
        return t.split('intent(')[1].split(')')[0] if 'intent(' in t else None


class Widened(Combined):
    """A part that only reads a variable which another part writes."""
    bounds = 'two parts with one use each, in and out'
    strict = True

    def cases(self, tier):
        return [dict(lay='in and out', phase='run')]

    def layout(self, case):
        return [['x'], ['x']]

    def inputs(self, case, eng):
        return dict(i0x='in', l0x='aw', i1x='out', l1x=mk(chs(text('l1x', 1, 'ab')) + ['w']))

    def known_key(self, case, inputs):
        return 'widened-by-other-part'


HARNESSES = dict(combined=Combined(), widened=Widened())


def main(tier, only=None):
    return pmain('P26', tier, 'model_checking', ['the schemes are otherwise compatible with the host variables'], [], ['see the harness'], only)
