"""Checks that execute Python functions of the tree symbolically.

A check module defines HARNESSES: name -> Harness.  A harness builds its symbolic input (inputs(p)), runs the real code and an
independent oracle on it (agree(inp) -> [(condition, label)]); the same agree() runs natively, on uninstrumented modules, with the
solver's values to confirm a counterexample.
"""
import importlib
import json
import os
import subprocess
import sys
import time
from ..engine import Engine, Inconclusive, Infeasible, Counterexample, cur
from ..runner import Check, Result, run_jobs, VERIF, REPO, NPROC
from . import load as _load
from .sym import value, SymStr, text, char, integer, mk, concretize

NATIVE = bool(os.environ.get('VT_NATIVE'))


def module(name):
    """A module of /repo/scripts (instrumented in the explorer, plain in the replay)."""
    if os.environ.get("VT_NATIVE"):
        import warnings
        warnings.simplefilter("ignore")
        for d in (_load.SCRIPTS, os.path.join(_load.SCRIPTS, 'parse_tools'), os.path.join(_load.SCRIPTS, 'fortran_tools')):
            if d not in sys.path:
                sys.path.insert(1, d)
        import logging
        logging.disable(logging.CRITICAL)
        return importlib.import_module(name)
    return _load.load(name)


class Outcome:
    """What a call did: a value or an exception."""
    def __init__(self, ok, val):
        self.ok, self.val = ok, val
        self.exc = None if ok else type(val).__name__

    def __repr__(self):
        return 'returned %r' % (self.val,) if self.ok else 'raised %s' % self.exc


def outcome(f, *a, **k):
    try:
        return Outcome(True, f(*a, **k))
    except Inconclusive:
        raise
    except RecursionError as e:
        raise Inconclusive("recursion limit: %s" % e)
    except Exception as e:
        return Outcome(False, e)


class Harness:
    """cases(tier) -> list of case descriptions (JSON); inputs(case, eng) -> dict; agree(case, inp) -> list of (cond, label)."""
    functions = ()
    bounds = ''
    budget = 600
    max_paths = 200000

    def cases(self, tier):
        return [None]

    def inputs(self, case, eng):
        return {}

    def agree(self, case, inp):
        raise NotImplementedError


def explore(hname, mod, case, budget, max_paths):
    h = importlib.import_module(mod).HARNESSES[hname]
    res = Result('%s %s' % (hname, json.dumps(case)))
    t0 = time.time()
    eng = Engine(deadline=t0 + budget, max_paths=max_paths)

    def run(e):
        inp = h.inputs(case, e)
        e.vt_inp = inp
        res.vt_last = inp
        try:
            for cond, label in h.agree(case, inp):
                e.reach(label)
                e.check(cond, label)
        except Counterexample as c:
            c.vt = value(inp, c.model)
            raise
        if e.stats.paths < 2:
            m = e.get_model()
            res.samples.append('%s: %s' % (res.name, json.dumps(value(inp, m), default=str)[:300]))
    try:
        for c in eng.explore(run):
            res.cexs.append(dict(label=c.label, inputs=c.vt))
    except Inconclusive as e:
        res.error = 'inconclusive: %s' % e
    except Exception as e:
        import traceback
        res.error = 'error: %r\n%s' % (e, traceback.format_exc(limit=-8))
    res.vt_last = None
    res.stats, res.reached, res.wall = eng.stats, eng.reached, time.time() - t0
    if not res.error and not res.cexs and not eng.reached:
        res.error = 'vacuous harness: no path reached an assertion'
    res.extra = dict(h=hname, case=case)
    return res


REPLAY = '''#!/bin/sh
# Replays a counterexample of %(pid)s against the real code of the tree: exit 1 when it still shows.
# %(label)s
export VT_NATIVE=1 VT_REPO="${VT_REPO:-%(repo)s}"
exec python3-vt %(verif)s/vt/pysym/replay.py checks.%(pid)s %(h)s <<'EOF_INPUT'
%(data)s
EOF_INPUT
'''


def harness_jobs(ck, pid, tier, only=None):
    """The jobs of the harnesses of checks.<pid>."""
    mod = 'checks.' + pid
    jobs = []
    for n, h in importlib.import_module(mod).HARNESSES.items():
        if only and n not in only:
            continue
        for case in h.cases(tier):
            budget = h.budget if tier == 'quick' else h.budget * 6
            jobs.append(('%s %s' % (n, json.dumps(case)), explore, (n, mod, case, budget, h.max_paths), {}))
        ck.functions += [f for f in h.functions if f not in ck.functions]
        if h.bounds:
            ck.bounds.append('%s: %s' % (n, h.bounds))
    return jobs


def replay(ck, pid, r, seen):
    """Replay the counterexamples of a harness job; those confirmed are violations."""
    harnesses = importlib.import_module('checks.' + pid).HARNESSES
    for c in r.cexs:
        hname, case = r.extra['h'], r.extra['case']
        k = seen[hname] = seen.get(hname, 0) + 1
        if k > 3:
            continue
        data = json.dumps(dict(case=case, inputs=c['inputs']), default=str)
        rp = ck.replay_file('%s_%d.sh' % (hname, k), REPLAY % dict(pid=pid, label=c['label'], repo=REPO, verif=VERIF, h=hname, data=data))
        p = subprocess.run([rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300,
                           env=dict(os.environ, VT_REPO=REPO))
        if p.returncode == 1:
            ck.validated += 1
            key = getattr(harnesses[hname], 'known_key', None)
            ck.violation('%s: %s\n%s' % (hname, c['label'], p.stdout.strip()[-1500:]), rp, key(case, c['inputs']) if key else None)
        else:
            ck.errors.append('%s: counterexample not confirmed by the replay (%s): %s %s' % (hname, p.returncode, data[:500], p.stdout[-800:]))


def main(pid, tier, level, assumptions, functions, bounds, only=None):
    ck = Check(pid, tier, level)
    ck.assumptions += assumptions
    ck.functions += functions
    ck.bounds += bounds
    seen = {}
    for r in run_jobs(harness_jobs(ck, pid, tier, only)):
        ck.add(r)
        replay(ck, pid, r, seen)
    return ck.finish()
