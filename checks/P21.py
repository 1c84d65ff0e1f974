"""P21: prebuild caps run schemes in suite order, once initialised, and stop on error."""
import z3
from vt.capgen.check import Variant, at_most, job, main as cmain
from vt.capgen.scenarios import H
from vt.prebuild import scenarios as S
from checks.P22 import FUNCS, WHERE
from checks.P07 import symname

STAGES = ('init', 'timestep_init', 'run', 'timestep_finalize', 'finalize')


class History:
    """Any sequence of calls, of any suite, group and model instance, without a fixed order."""
    def __init__(self, depth, first):
        self.depth, self.first = depth, first

    def __call__(self, run):
        eng, sus = run.eng, run.spec.suites
        insts = (1, 2, 200)
        k = 0
        for i in range(self.depth):
            st = STAGES[eng.concretize(eng.int('stage%d' % i, 0, 4)) if i else self.first]
            su = sus[eng.concretize(eng.int('suite%d' % i, 0, len(sus) - 1))]
            gs = [None] + [g for g, _ in su.groups]
            g = gs[eng.concretize(eng.int('group%d' % i, 0, len(gs) - 1))]
            # instances are interchangeable: a new one is always the next
            j = eng.concretize(eng.int('inst%d' % i, 0, min(k, len(insts) - 1)))
            k = max(k, j + 1)
            run.call(st, su.name, g, inst=insts[j])


def restarted(run):
    """The life cycle, twice for one instance, with another instance in use."""
    s = run.spec
    su = s.suites[0]
    for st in ('init', 'timestep_init', 'init', 'run'):
        run.call(st, su.name)
    run.call('init', su.name, inst=2)
    for st in ('timestep_finalize', 'finalize', 'finalize', 'run', 'init', 'run'):
        run.call(st, su.name)
    for st in ('timestep_init', 'run', 'finalize', 'timestep_init'):
        run.call(st, su.name, inst=2)
    run.call('run', su.name)


class Names:
    def __init__(self, thorough):
        self.th = thorough

    def __call__(self, run):
        eng, sus = run.eng, run.spec.suites
        st = STAGES[eng.concretize(eng.int('stage', 0, 4))]
        if st != 'init':
            for s in sus:
                run.call('init', s.name)
        what = eng.pick(['suite', 'group', 'suite of group'])
        s0 = eng.pick(sus)
        names = [s.name for s in sus] if what != 'group' else sorted({g for s in sus for g, _ in s.groups})
        lens = sorted({x for m in names for x in ((len(m) - 1, len(m), len(m) + 1) if not self.th else range(len(m) + 4))} | {1, 0})
        ln = lens[eng.concretize(eng.int('len', 0, len(lens) - 1))]
        val, cell, cs = symname(eng, 'name', ln, eng.pick([0, 2]))
        eq = lambda x: eng.branch(run.w.char_eq(val, x))
        if what == 'group':
            g = next((g for g, _ in s0.groups if eq(g)), None)
            run.call(st, s0.name, g, group_arg=cell, bad=g is None)
        else:
            hit = next((s for s in sus if eq(s.name)), None)
            g0 = None if what == 'suite' else s0.groups[0][0]
            if hit is not None and g0 and g0 not in [g for g, _ in hit.groups]:
                run.call(st, hit.name, g0, suite_arg=cell, bad=True)
            else:
                run.call(st, hit.name if hit else s0.name, g0, suite_arg=cell, bad=hit is None)
        for s in sus:
            run.call(st, s.name)


def variants(th):
    def f(n, mk):
        reg = mk.reg
        vs = [Variant('err', errors=at_most(2 if th else 1))]
        if reg.get('histories'):
            vs.append(Variant('restart', drive=restarted))
        if reg.get('names'):
            vs.append(Variant('names', drive=Names(th), max_paths=400000))
        return vs
    return f


def history_jobs(ck, th, names, budget):
    return [('%s_h%d' % (n, k), job, ('%s_h%d' % (n, k), S.REG[n], 'P21', [Variant('hist', drive=History(S.REG[n].reg['histories'] + th, k), max_paths=400000)], ck.scratch, budget), {})
            for n in names if S.REG[n].reg.get('histories') for k in range(5)]


def main(tier, only=None):
    th = tier == 'thorough'
    names = only or [n for n in S.REG if 'P21' in S.REG[n].reg['props']]
    return cmain('P21', tier, names, variants(th), makes=S.REG, functions=FUNCS, where=WHERE, sizes=False,
                 extra_jobs=lambda ck, budget: history_jobs(ck, th, names, budget),
                 bounds=['histories: every sequence of %d calls of any stage, group (or whole suite) and model instance (1, 2, 200) of one suite, of %d calls of two or three suites, '
                         'plus one fixed history of 15 calls' % (3 + th, 2 + th),
                         'life cycles with at most %d scheme call(s) failing, any error code' % (2 if th else 1),
                         'names: every string of printable characters of length 0, 1 and within 1 (thorough: up to 3 more) of the real names, with 0 or 2 trailing blanks'])
