"""Checks of capgen-generated caps: every scenario is generated, encoded, decided for all values and replayed."""
import hashlib
import os
import shutil
import traceback
from ..engine import Counterexample, Infeasible, Inconclusive
from ..runner import Check, Result, explore_job, run_jobs, REPO
from ..pysym.check import replay as replay_harness
from .harness import build, Run, Built
from .replay import Replay, freeze
from . import scenarios as S


class at_most:
    def __init__(self, n):
        self.n = n

    def __call__(self, run, proc, k):
        return run.nerr < self.n


def gen_script(spec, b):
    """Replay of a generation or compilation failure."""
    d = b.dir + '_emit'
    spec.emit(d)
    o = ['#!/bin/bash', 'D=$(mktemp -d)', 'trap \'rm -rf "$D"\' EXIT', 'cd "$D"']
    for fn in sorted(os.listdir(d)):
        if os.path.isdir(os.path.join(d, fn)):
            o.append('mkdir ' + fn)
            continue
        with open(os.path.join(d, fn)) as f:
            o.append("cat > %s <<'VT_EOF'\n%s\nVT_EOF" % (fn, f.read().rstrip('\n')))
    c = b.cmd()
    c[1] = c[1].replace(REPO, '/repo')
    o += [' '.join(c) + ' || exit 1']
    try:
        from .harness import FC
        fl = [os.path.relpath(x, b.dir) if x.startswith(b.dir) else x for x in b.files()]
        o.append(' '.join(FC + ['-c'] + fl))
    except Inconclusive:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return '\n'.join(o) + '\n'


def tools(spec):
    return getattr(spec, 'tools', None) or (Built, Run, Replay)


class Variant:
    def __init__(self, name, drive=None, errors=False, poison='alloc', max_paths=60000, validate=True, resize=None, allprops=False):
        self.resize = resize
        self.allprops = allprops
        self.name = name
        self.drive = drive
        self.errors = errors
        self.poison = poison
        self.max_paths = max_paths
        self.validate = validate


class ModelHolder:
    neg = None

    def __init__(self, m):
        self.model = m


def job(name, make, pid, variants, scratch, budget, strict_gen=True, sizes=None):
    """One scenario: all variants.  res.extra['viol'] = confirmed violations."""
    res = Result(name)
    res.extra = dict(viol=[], validated=0, notes=[])
    import time
    t0 = time.time()
    reg = getattr(make, 'reg', None) or S.REG.get(make.__name__, dict(props=set()))
    try:
        spec = make()
        spec.props = set(reg['props']) | ({pid} if any(v.allprops for v in variants) else set())
        d = os.path.join(scratch, name)
        b = tools(spec)[0](spec, d)
        if not b.generate():
            if pid in spec.props:
                res.extra['viol'].append(dict(msg='scenario %s: the generator rejects a valid input:\n%s' % (name, b.error[1][-800:]),
                                              replay=gen_script(spec, b), key='gen:' + name))
            else:
                res.extra['notes'].append('%s not generated (%s)' % (name, b.error[1][-200:]))
                res.reached = {'generation fails': 1}
            return res

        def compile_failure():
            if b.compile():
                return False
            if pid in spec.props:
                res.extra['viol'].append(dict(msg='scenario %s: the generated code does not compile:\n%s' % (name, b.error[1][-800:]),
                                              replay=gen_script(spec, b), key='compile:' + name))
            else:
                res.extra['notes'].append('%s does not compile (%s)' % (name, b.error[1][-200:]))
                res.reached['compilation fails'] = 1
            return True
        try:
            b.parse()
        except Exception as e:
            if compile_failure():
                return res
            res.error = 'generated code not understood: %s' % e
            return res
        for v in variants:
            sub = run_variant(res, b, spec, make, name, v, pid, budget, sizes)
            if sub == 'fault' and compile_failure():
                return res
    except Exception as e:
        res.error = 'error: %s\n%s' % (e, traceback.format_exc(limit=-6))
    finally:
        res.wall = time.time() - t0
        shutil.rmtree(os.path.join(scratch, name), ignore_errors=True)
        for x in list(os.listdir(scratch)):
            if x.startswith(name + '__'):
                shutil.rmtree(os.path.join(scratch, x), ignore_errors=True)
    return res


def run_variant(res, b, spec, make, name, v, pid, budget, sizes):
    keep = {}
    sections = {}

    def h(eng, r):
        run = tools(spec)[1](b, eng, errors=v.errors, poison=v.poison, only=pid, sizes=sizes, resize=v.resize)
        run.allprops = v.allprops
        try:
            (v.drive or make.drive)(run)
        except Counterexample as c:
            c.detail = (freeze(run, eng.diversify(c)), unalloc(run, eng))
            raise
        if run.w.lenient_sections and not sections:
            sections['f'] = (freeze(run, eng.diversify(ModelHolder(eng.get_model()))), unalloc(run, eng))
            sections['w'] = run.w.lenient_sections[0]
        if ('f' not in keep or v.errors and run.nerr and not keep.get('e')) and not run.w.lenient_sections:
            keep['e'] = run.nerr
            keep['f'] = freeze(run, eng.diversify(ModelHolder(eng.get_model())))
            keep['u'] = unalloc(run, eng)
    tag = '%s__%s' % (name, v.name)
    r = explore_job(tag, h, stop_on_first=False, max_paths=v.max_paths, budget=budget)
    res.stats.add(r.stats)
    for k, n in r.reached.items():
        res.reached[k] = res.reached.get(k, 0) + n
    seen = set()
    bad = 0
    for c in r.cexs:
        lab = c['label']
        if lab in seen or len(seen) > 8:
            continue
        seen.add(lab)
        bad += 1
        fz, ua = c['detail']
        try:
            rep = tools(spec)[2](b, fz, os.path.join(os.path.dirname(b.dir), tag + '_c%d' % len(seen)))
            diff, txt = rep.run(unalloc=ua)
        except RuntimeError as e:
            if b.compile():
                res.error = '%s: %s' % (tag, e)
            return 'fault'
        if diff:
            msg = 'scenario %s (%s): %s\ncompiled caps: %s' % (name, v.name, lab.split('|', 1)[1], diff[:700])
            res.extra['viol'].append(dict(msg=msg, replay=rep.bundle(), key='%s:%s' % (name, lab.split('|', 1)[1])))
        else:
            res.error = '%s: counterexample did not reproduce: %s' % (tag, lab)
    if r.error and not (bad and 'vacuous' in r.error):
        res.error = r.error
    if 'f' in sections and pid == 'P04' and not res.extra.get('sec'):
        res.extra['sec'] = True
        fz, ua = sections['f']
        rep = tools(spec)[2](b, fz, os.path.join(os.path.dirname(b.dir), tag + '_s'))
        diff, txt = rep.run(unalloc=ua)
        if diff:
            res.extra['viol'].append(dict(key='unallocated-section', replay=rep.bundle(), msg='scenario %s: a section of an unallocated '
                                          'inactive host array is passed on: %s' % (name, diff[:600])))
    if v.validate and not bad and 'f' in keep:
        rep = tools(spec)[2](b, keep['f'], os.path.join(os.path.dirname(b.dir), tag + '_v'))
        try:
            diff, txt = rep.run(True, unalloc=keep['u'])
        except RuntimeError as e:
            if b.compile():
                res.error = '%s: %s' % (tag, e)
            return 'fault'
        if diff is None:
            res.extra['validated'] += 1
        else:
            res.error = '%s: encoding and compiled code disagree: %s' % (tag, diff[:800])
    return 'bad' if bad else 'ok'


def unalloc(run, eng):
    """Host arrays that are not allocated on this path."""
    return frozenset(run.unalloc)


def finish(ck, rs, what):
    seen = {}
    for r in rs:
        ck.add(r)
        if 'h' in r.extra:
            replay_harness(ck, ck.pid, r, seen)
            continue
        ck.validated += r.extra.get('validated', 0)
        ck.programs += 1
        ck.notes.extend(r.extra.get('notes', []))
        for x in r.extra.get('viol', []):
            if len(ck.violations) < 5:
                p = ck.replay_file('%s_%s.sh' % (r.name, hashlib.md5(x['msg'].encode()).hexdigest()[:6]), x['replay'])
                ck.violation(x['msg'], p, key=x['key'].replace(' ', '_'))
    if ck.violations:
        ck.errors = []
    return ck.finish()


FUNCS = ['generated <host>_ccpp_cap.F90 (all phase routines)', 'generated ccpp_<suite>_cap.F90 (all routines)', 'host data modules']
ASSUME = ['scheme bodies are arbitrary functions of their intent(in/inout) arguments: every value they write is a fresh symbol',
          'real arithmetic is exact (rounding is outside); kind conversions are value preserving',
          'intermediate Fortran semantics as encoded in vt/fort; every counterexample and one witness per scenario is compiled and run with gfortran']


def main(pid, tier, names=None, variants=None, bounds=(), extra_jobs=(), makes=None, functions=FUNCS, where='vt/capgen/scenarios.py', sizes=True):
    ck = Check(pid, tier, 'translation_validation')
    ck.functions = functions
    ck.assumptions = list(ASSUME)
    ck.bounds = ['%d scenarios (%s), two or three columns and levels, concrete extents' % (len(names or S.REG), where)] + list(bounds)
    jobs = []
    budget = 2400 if ck.thorough else 500
    for n in (names or list(S.REG)):
        mk = makes[n] if makes else S.REG[n]['make']
        vs = variants(n, mk) if variants else default_variants(n, mk)
        jobs.append((n, job, (n, mk, pid, vs, ck.scratch, budget), {}))
        if ck.thorough and sizes:
            jobs.append((n + '_3', job, (n + '_3', mk, pid, vs, ck.scratch, budget), dict(sizes=dict(horizontal_dimension=3, vertical_layer_dimension=3))))
    jobs = list(extra_jobs(ck, budget) if callable(extra_jobs) else extra_jobs) + jobs
    return finish(ck, run_jobs(jobs), pid)


def default_variants(n, mk):
    vs = [Variant('alloc')]
    if any(v.cond is not None for v in mk().allvars()) and not S.REG[n].get('changing'):
        vs.append(Variant('unalloc', poison='none'))
    return vs


def error_variants(k):
    return lambda n, mk: [Variant('err', errors=at_most(k))]
