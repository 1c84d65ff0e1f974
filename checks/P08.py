"""Query routines: suites, parts, schemes and required variables are reported exactly; unknown suites are rejected."""
import z3
from vt.capgen.check import main as _main, Variant
from vt.capgen.scenarios import REG, nc, PS, host
from vt.capgen.spec import flat, PHASES, Sub, Scheme, Suite, Spec
from vt.fort.interp import Cell
from checks.P07 import symname, contains


def walk_loops(items):
    for it in items:
        if isinstance(it, Sub):
            yield it.loop
            for x in walk_loops(it.items):
                yield x


def usage(spec, suite, paths):
    """(I, IO, O) standard names and the standard names that may be reported as inputs in addition."""
    parts = []
    for p in PHASES:
        if p != 'run':
            parts.append((p, spec.sched(suite), ()))
    for g, its in suite.groups:
        parts.append(('run', list(dict.fromkeys(flat(its))), list(walk_loops(its))))
    I, IO, O, may = set(), set(), set(), set()
    for ph, names, loops in parts:
        use = {}
        for n in names:
            sc = spec.schemes[n]
            if ph not in sc.entries:
                continue
            for a in sc.args(ph):
                if a.std in paths or a.std in ('ccpp_error_code', 'ccpp_error_message'):
                    if a.std not in use:
                        use[a.std] = a.intent
                    elif use[a.std] != a.intent:
                        use[a.std] = 'inout'
                for d in a.dims:
                    may.update(x.strip() for x in d.split(':'))
                for d in paths[a.std][0].dims if a.std in paths else ():
                    may.update(x.strip() for x in d.split(':'))
        may.update(loops)
        for std, it in use.items():
            v = paths[std][0] if std in paths else None
            prot = v is not None and 'protected = True' in v.extra
            if it == 'in':
                (may if prot else I).add(std)
            else:
                (IO if it == 'inout' else O).add(std)
    return I, IO, O, may


def framework(spec, paths):
    """Standard names generated code itself may need as inputs."""
    may = {'horizontal_dimension', 'horizontal_loop_begin', 'horizontal_loop_end', 'horizontal_loop_extent', 'ccpp_constant_one'}
    for v, path in paths.values():
        if v.active:
            import re
            may.update(x for x in re.findall(r'[a-z]\w*', v.active) if x in paths)
        for p in path:
            if p[0] == 'index':
                may.update(x for x in p[1] if x in paths)
    return may


def elements(spec, paths, std):
    """Named elements of a host object (itself for a leaf)."""
    if std not in paths:
        return {std}
    v, path = paths[std]
    if v.isddt:
        out = set()
        for c in spec.ddts[v.type][0].vars:
            out |= elements(spec, paths, c.std)
        return out
    kids = [s for s, (w, p) in paths.items() if any(x[0] == 'index' for x in p) and w.base == v.local and s != std]
    return set(kids) or {std}


def drive(run):
    eng = run.eng
    spec = run.spec
    paths = run.paths
    run.trace.append(('begin',)) if False else None
    sus = spec.suites
    which = eng.pick(['suites', 'parts', 'schemes', 'variables', 'unknown'])
    if which == 'suites':
        run.query('ccpp_physics_suite_list', 'suites', ({s.name for s in sus}, set()))
        return
    if which == 'unknown':
        r = eng.pick(['part_list', 'schemes', 'variables'])
        lens = sorted({x for s in sus for x in (len(s.name) - 1, len(s.name), len(s.name) + 1)} | {0, 1})
        ln = lens[eng.concretize(eng.int('len', 0, len(lens) - 1))]
        val, cell, cs = symname(eng, 'name', ln, eng.pick([0, 2]))
        for s in sus:
            eng.assume(z3.Not(z3.And([z3.BoolVal(True)] + [a == ord(b) for a, b in zip(cs, s.name)])) if len(s.name) == ln else True)
        run.query('ccpp_physics_suite_' + r, {'part_list': 'part_list', 'schemes': 'scheme_list', 'variables': 'variable_list'}[r], None,
                  suite_arg=cell, note=' of an unknown suite',
                  flags=[(d, None) for d in ('input_vars', 'output_vars', 'struct_elements')])
        if cs:
            run.fail({'P08'}, 'rejection message does not contain the offending name', contains(run, run.last[1], cs))
        return
    s = eng.pick(sus)
    pad = eng.pick([0, 3])
    cell = Cell('c', s.name + ' ' * pad, len(s.name) + pad)
    if which == 'parts':
        run.query('ccpp_physics_suite_part_list', 'part_list', ({g for g, _ in s.groups}, set()), suite_arg=cell, note=' of ' + s.name)
    elif which == 'schemes':
        run.query('ccpp_physics_suite_schemes', 'scheme_list', (set(spec.sched(s)), set()), suite_arg=cell, note=' of ' + s.name)
    else:
        I, IO, O, may = usage(spec, s, paths)
        may |= framework(spec, paths)
        fl = []
        val = {}
        for d in ('input_vars', 'output_vars', 'struct_elements'):
            if eng.branch(eng.bool('has_' + d)):
                b = eng.bool(d)
                val[d] = eng.branch(b)
                fl.append((d, val[d]))
            else:
                val[d] = True
                fl.append((d, None))
        must = set()
        if val['input_vars']:
            must |= I | IO
        if val['output_vars']:
            must |= IO | O
        extra = may if val['input_vars'] else set()
        if val['struct_elements']:
            must = set().union(*[elements(spec, paths, x) for x in must]) if must else set()
            extra = set().union(*[elements(spec, paths, x) for x in extra]) if extra else set()
        run.query('ccpp_physics_suite_variables', 'variable_list', (must, extra), suite_arg=cell, flags=fl,
                  note=' of %s (%s)' % (s.name, ', '.join('%s=%s' % (a, b) for a, b in fl if b is not None)))


def foreign():
    """Another suite writes what this one only reads."""
    s = [Scheme('s_read', {'run': [nc(), PS('in')]}), Scheme('s_write', {'run': [nc(), PS('inout')]})]
    return Spec('foreign', [host()], s, [Suite('reader', [('phys', ['s_read'])]), Suite('writer', [('phys', ['s_write'])])])


def drive_foreign(run):
    n = 'reader'
    run.query('ccpp_physics_suite_variables', 'variable_list', ({'ccpp_error_code', 'ccpp_error_message'}, set()), suite_arg=Cell('c', n, len(n)),
              flags=[('input_vars', False), ('output_vars', True), ('struct_elements', False)], note=' of a suite that only reads what another one writes')


def main(tier):
    th = tier == 'thorough'
    names = [n for n in REG if th or 'P08' in REG[n]['props'] or n in ('order', 'subcycles', 'two_suites', 'similar_names', 'names', 'ddts', 'slices', 'owned',
                                                                       'optional', 'call_time')]
    foreign.drive = drive_foreign
    makes = {n: REG[n]['make'] for n in names}
    makes['foreign'] = foreign
    return _main('P08', tier, names=names + ['foreign'], makes=makes,
                 variants=lambda n, mk: [Variant('query', drive=drive_foreign if n == 'foreign' else drive, max_paths=100000)],
                 bounds=['every combination of present/absent and true/false flags, every suite, with and without trailing blanks',
                         'unknown suite names: every string of printable characters of length 0, 1 and within 1 of the real names'])
