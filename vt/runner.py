"""Running harnesses, collecting evidence, reporting violations."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from .engine import Engine, Stats, Inconclusive, Counterexample

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
NPROC = int(os.environ.get('VT_NPROC', '8'))


class Result:
    """Picklable outcome of one harness job."""
    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.cexs = []            # dicts: label, inputs, detail
        self.error = None
        self.reached = {}
        self.samples = []
        self.extra = {}
        self.wall = 0.0


def explore_job(name, fn, timeout_ms=20000, max_paths=200000, budget=None, stop_on_first=True, witness=True):
    """Run harness fn(eng, res) over all paths; returns Result."""
    res = Result(name)
    t0 = time.time()
    eng = Engine(timeout_ms=timeout_ms, max_paths=max_paths, deadline=(t0 + budget) if budget else None,
                 stop_on_first=stop_on_first)
    try:
        cexs = eng.explore(lambda e: fn(e, res))
        for c in cexs:
            res.cexs.append(dict(label=c.label, inputs=c.inputs, detail=c.detail))
    except Inconclusive as e:
        res.error = "inconclusive: %s" % e
        for c in eng.cexs:
            res.cexs.append(dict(label=c.label, inputs=c.inputs, detail=c.detail))
    except Exception as e:      # machinery error
        res.error = "error: %s\n%s" % (e, traceback.format_exc(limit=-8))
    res.stats = eng.stats
    res.reached = eng.reached
    res.wall = time.time() - t0
    if witness and not res.error and not res.cexs and not eng.reached:
        res.error = "vacuous harness: no path reached an assertion"
    return res


def _call(job):
    name, fn, args, kw = job
    try:
        return fn(*args, **kw)
    except BaseException as e:
        r = Result(name)
        r.error = "error: %r\n%s" % (e, traceback.format_exc(limit=-8))
        return r


def run_jobs(jobs, nproc=None, stop=None):
    """jobs: list of (name, fn, args, kwargs); each returns a Result.  fn must be module level (fork + pickle)."""
    nproc = nproc or NPROC
    if nproc <= 1 or len(jobs) <= 1:
        return [_call(j) for j in jobs]
    out = []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_call, jobs, chunksize=1):
            out.append(r)
            if stop and stop(out):
                pool.terminate()
                break
    order = {j[0]: i for i, j in enumerate(jobs)}
    out.sort(key=lambda r: order.get(r.name, 0))
    return out


class Check:
    """One property check run."""
    def __init__(self, pid, tier, level):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.stats = Stats()
        self.results = []
        self.violations = []          # (message, replay path)
        self.errors = []
        self.notes = []
        self.known_hits = []
        self.assumptions = []
        self.bounds = []
        self.functions = []
        self.samples = []
        self.validated = 0
        self.programs = 0
        self.disagreements_checked = 0
        self.known = load_known(pid)
        self.scratch = tempfile.mkdtemp(prefix='vt_%s_' % pid)
        self.replay_dir = os.path.join(VERIF, 'replays', pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, r):
        self.results.append(r)
        self.stats.add(r.stats)
        if r.error:
            self.errors.append("%s: %s" % (r.name, r.error))
        self.samples.extend(r.samples[:3])

    def replay_file(self, name, text):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, 0o755)
        return p

    def violation(self, msg, replay, key=None):
        """Report a confirmed violation unless the known-findings file lists it."""
        if key is not None:
            for k in self.known:
                if k['key'] == key:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, k['what']), flush=True)
                    return False
        self.violations.append((msg, replay))
        print("VIOLATION property=%s replay=%s" % (self.pid, replay), flush=True)
        print("  " + msg.replace('\n', '\n  ')[:3000], flush=True)
        return True

    def finish(self, extra=None):
        cov = dict(self.stats.as_dict())
        d = cov
        cov2 = dict(functions_encoded=self.functions, bounds=self.bounds, queries_discharged=d['queries'],
                    solver_s=d['solver_s'], paths=d['paths'], assertions_unsat=d['asserts'],
                    assertions_trivially_true=d['asserts_trivial'], queries_unsat=d['unsat'], max_decision_depth=d['max_depth'],
                    harnesses=[dict(name=r.name, paths=r.stats.paths, queries=r.stats.queries,
                                    solver_s=round(r.stats.solver_s, 2), wall_s=round(r.wall, 2), reached=r.reached)
                               for r in self.results[:400]],
                    inconclusive=self.errors[:20], notes=self.notes, samples=self.samples[:12])
        if self.level == 'model_checking':
            cov2.update(states=d['paths'], transitions=d['branches'], traces_validated_against_impl=self.validated)
        elif self.level == 'translation_validation':
            cov2.update(programs=self.programs, disagreements_checked=d['asserts'] + d['asserts_trivial'],
                        traces_validated_against_impl=self.validated)
        elif self.level == 'proof':
            cov2.update(obligations=d['asserts'] + d['asserts_trivial'], discharged=d['asserts'] + d['asserts_trivial'])
        else:
            cov2.setdefault('explanation', 'symbolic execution of the real code; see functions_encoded and bounds')
        if extra:
            cov2.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov2,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver, %d unsat), %d assertions unsat, %d validated, %d violations, %.1fs"
              % (self.pid, self.tier, len(self.results), d['paths'], d['queries'], d['solver_s'], d['unsat'], d['asserts'], self.validated,
                 len(self.violations), time.time() - self.t0), flush=True)
        if self.violations:
            return 1
        if self.errors:
            print("INCONCLUSIVE %s:" % self.pid)
            for e in self.errors[:10]:
                print("  " + e)
            return 2
        return 0


def load_known(pid):
    """Entries 'known: property=<id> key=<key> <what>' of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                parts = line.split(None, 3)
                if parts[1] == 'property=' + pid:
                    out.append(dict(key=parts[2].split('=', 1)[1], what=parts[3] if len(parts) > 3 else ''))
    return out


def gfortran(srcs, exe, cwd, flags=(), timeout=120):
    """Compile; returns (ok, output)."""
    cmd = ['gfortran', '-cpp', '-ffree-line-length-none', '-O0', '-w', '-fmax-errors=3'] + list(flags) + list(srcs) + ['-o', exe]
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return p.returncode == 0, p.stdout


def run_exe(exe, cwd, timeout=20):
    """(returncode or 'timeout', output)"""
    try:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        p = subprocess.run([exe], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors='replace', env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
