"""Dispatch: suite and part names of symbolic characters reach exactly the named suite / part, or are rejected with a message naming them."""
import z3
from vt.capgen.check import main as _main, Variant
from vt.capgen.scenarios import H
from vt.fort.interp import Cell, SymC, chars, is_char

PRE = {'register': [], 'initialize': [], 'timestep_initial': ['initialize'], 'run': ['initialize', 'timestep_initial'],
       'timestep_final': ['initialize', 'timestep_initial'], 'finalize': ['initialize']}


def symname(eng, tag, n, pad):
    cs = []
    for j in range(n):
        c = z3.BitVec('%s_%d' % (tag, j), 8)
        eng.inputs['%s_%d' % (tag, j)] = c
        eng.assume(z3.And(z3.UGE(c, 33 if j == n - 1 else 32), z3.ULE(c, 126)))
        cs.append(c)
    v = SymC(cs + [' '] * pad)
    return v, Cell('c', v, n + pad), cs


def contains(run, msg, cs):
    m = chars(msg)
    alts = []
    for o in range(len(m) - len(cs) + 1):
        conds = []
        for p, q in zip(m[o:o + len(cs)], cs):
            e = run.w.ceq(p, q)
            if e is False or (isinstance(e, z3.ExprRef) and z3.is_false(e)):
                conds = None
                break
            if e is not True:
                conds.append(e)
        if conds is not None:
            alts.append(z3.And(conds) if conds else z3.BoolVal(True))
    return z3.Or(alts) if alts else False


class Drive:
    def __init__(self, thorough):
        self.th = thorough

    def __call__(self, run):
        eng = run.eng
        run.p01_also = {'P07'}
        n = run.sizes[H]
        sus = run.spec.suites
        phases = [p for p in PRE if p != 'register' or any('register' in s.entries for s in run.spec.schemes.values())]
        ph = phases[eng.concretize(eng.int('phase', 0, len(phases) - 1))]
        for s in sus:
            for p in PRE[ph]:
                run.call_phase(p, s.name)
        what = eng.pick(['suite', 'part']) if ph == 'run' else 'suite'
        names = [s.name for s in sus] if what == 'suite' else sorted({g for s in sus for g, _ in s.groups})
        lens = sorted({x for m in names for x in ((len(m) - 1, len(m), len(m) + 1) if not self.th else range(len(m) + 4))} | {1, 0})
        ln = lens[eng.concretize(eng.int('len', 0, len(lens) - 1))]
        pad = eng.pick([0, 2])
        val, cell, cs = symname(eng, 'name', ln, pad)
        eq = lambda x: eng.branch(run.w.char_eq(val, x))
        rng = (1, n)
        if what == 'suite':
            hit = next((s for s in sus if eq(s.name)), None)
            part = (hit or sus[0]).groups[0][0] if ph == 'run' else None
            if hit is not None:
                run.call_phase(ph, hit.name, part, rng, suite_arg=cell)
                return
            run.must_contain = val
            run.call_phase(ph, 'unknown', part, rng, suite_arg=cell, expect='reject', reject_props=('P07',))
        else:
            s = eng.pick(sus)
            g = next((g for g, _ in s.groups if eq(g)), None)
            if g is not None:
                run.call_phase(ph, s.name, g, rng, part_arg=cell)
                return
            run.must_contain = val
            run.call_phase(ph, s.name, 'unknown', rng, part_arg=cell, expect='reject', reject_props=('P07',))
        if cs:
            run.fail({'P07'}, "rejection message does not contain the offending name", contains(run, run.last[1], cs))
        # nothing moved: the same phase is still available
        for s in sus:
            run.call_phase(ph, s.name, s.groups[0][0] if ph == 'run' else None, rng)


def main(tier):
    th = tier == 'thorough'
    return _main('P07', tier, names=['order', 'two_suites', 'similar_names', 'embedded_names'],
                 variants=lambda n, mk: [Variant('names', drive=Drive(th), max_paths=300000)],
                 bounds=['suite and part names: every string of printable characters of length 0, 1 and within 1 (thorough: up to 3 more) of the real names, '
                         'with 0 or 2 trailing blanks; every phase'])
