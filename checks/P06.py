"""Lifecycle: every call is accepted exactly in the states that allow it, in any history of calls over one or two suites."""
from vt.capgen.check import main as _main, Variant
from vt.capgen.scenarios import REG, H

NEXT = {'register': (0, 0), 'initialize': (0, 1), 'timestep_initial': (1, 2), 'run': (2, 2), 'timestep_final': (2, 1), 'finalize': (1, 0)}
REACH = {0: [], 1: ['initialize'], 2: ['initialize', 'timestep_initial']}


class Drive:
    def __init__(self, ncalls, canon=True):
        self.ncalls = ncalls
        self.canon = canon

    def __call__(self, run):
        eng = run.eng
        run.p01_also = {'P06'}
        n = run.sizes[H]
        sus = run.spec.suites
        state = {s.name: 0 for s in sus}
        ops = []
        for s in sus:
            for p in NEXT:
                if p == 'register' and not any('register' in sc.entries for sc in run.spec.schemes.values()):
                    continue
                if p == 'run':
                    for g in (s.groups[:1] if len(sus) > 1 else s.groups):
                        ops.append((p, s.name, g[0]))
                else:
                    ops.append((p, s.name, None))

        def call(p, s, g):
            pre, post = NEXT[p]
            if state[s] == pre:
                run.call_phase(p, s, g, (1, n))
                state[s] = post
            else:
                run.call_phase(p, s, g, (1, n), expect='reject', reject_props=('P06',))
        if self.canon:
            for i, s in enumerate(sus):
                for p in REACH[eng.concretize(eng.int('state_%d' % i, 0, 2))]:
                    call(p, s.name, None)
        for i in range(self.ncalls):
            call(*ops[eng.concretize(eng.int('op_%d' % i, 0, len(ops) - 1))])


def main(tier):
    th = tier == 'thorough'

    def variants(n, mk):
        one = len(mk().suites) == 1
        return [Variant('calls', drive=Drive((4 if one else 3) if th else (3 if one else 2)), max_paths=500000),
                Variant('start', drive=Drive(4 if th else 3 if one else 2, canon=False), max_paths=500000, validate=False)]
    names = ['order', 'two_suites', 'owned', 'owned_phases', 'subcycles'] if not th else [n for n in REG if n != 'variable_subcycles']
    return _main('P06', tier, names=names, variants=variants,
                 bounds=['every combination of suite states, then every sequence of %s further calls (any suite, phase, group), legal or not' %
                         ('3-4' if th else '2-3')])
