"""P28: what is generated depends only on the inputs."""
import os
import shutil
import sys
import tempfile
from vt.pysym import order
from vt.pysym.check import Harness, main as pmain
from vt.pysym.sym import ask
from vt.engine import Inconclusive
from vt.capgen import scenarios as CS
from vt.prebuild import scenarios as PS
import checks.P27 as P27

_base = {}


class Generate(Harness):
    """Two runs on the same inputs, one of them with another order of unordered things."""
    budget = 500
    max_paths = 2000
    quick = ()
    thorough = ()

    def cases(self, tier):
        return list(self.quick) if tier == 'quick' else list(self.quick) + list(self.thorough)

    def inputs(self, case, eng):
        return dict(where=eng.int('where', -2, 998), how=eng.int('how', 0, 1))

    def agree(self, case, inp):
        if case not in _base:
            plan = order.Plan()
            _base[case] = self.run(case, plan), list(plan.sites)
        (rc0, out0), _ = _base[case]
        if not rc0.startswith(('ended', 'exit 0')):
            raise Inconclusive('%s: the generator %s' % (case, rc0))
        hit, memo = [], {}
        everything = ask(inp['where'] == -1)

        def choose(k):
            if k not in memo:
                memo[k] = decide(k)
            return memo[k]

        def decide(k):
            if everything or not hit and ask(inp['where'] == k):
                hit.append(k)
                return 'reverse' if ask(inp['how'] == 0) else 'rotate'
            return ''
        plan = order.Plan(choose)
        rc, out = self.run(case, plan)
        places = [s for s, k in plan.sites.items() if k in hit]
        bad = sorted(f for f in set(out0) | set(out) if out0.get(f) != out.get(f))
        label = 'nothing reordered' if not hit else 'everything reordered' if len(places) > 1 else 'visits of one place reordered'
        if rc == rc0 and not bad:
            return [(True, label)]
        return [(False, 'the order in which %s visits its elements changes %s' % (' and '.join(places[:3]), ', '.join(bad[:4]) if rc == rc0 else 'the run: ' + rc))]

    def scratch(self):
        # the same directory for the runs to compare (its name is part of what is generated)
        d = os.path.join(tempfile.gettempdir(), 'vtp28.%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


    def depend(self, d):
        """Give every table three dependencies (two of them common to all)."""
        for fn in sorted(os.listdir(d)):
            if not fn.endswith('.meta'):
                continue
            b = fn[:-5]
            with open(os.path.join(d, fn)) as f:
                lines = [x for x in f.read().split('\n') if x.strip() != 'dependencies =']
            out, props = [], False
            for x in lines:
                out.append(x)
                if x.strip() == '[ccpp-table-properties]':
                    props = True
                elif props and x.strip().startswith('type'):
                    out.append('  dependencies = zz_shared.F90,%s_helper.F90,aa_shared.F90' % b)
                    props = False
            with open(os.path.join(d, fn), 'w') as f:
                f.write('\n'.join(out))
            for n in ('zz_shared', b + '_helper', 'aa_shared'):
                open(os.path.join(d, n + '.F90'), 'w').close()


class Capgen(Generate):
    functions = ('ccpp_capgen._main_func', 'ccpp_capgen.capgen', 'ccpp_datafile.datatable_report', 'every function of the generator that visits a set or lists a directory')
    bounds = ('whole runs of capgen on the scenarios of P01-P10 and 5 layouts of P27, and every report on the datatable; the order at any one place that visits a set of names or objects or lists a directory, or at all places '
              'at once, reversed or rotated')

    def run(self, case, plan):
        d = self.scratch()
        try:
            os.makedirs(os.path.join(d, 'out'))
            if case.startswith('constituents '):
                return self.constituents(P27.scenarios(True)[case.split(' ')[1]]['lay'], plan, d)
            sp = CS.REG[case]['make']()
            sp.emit(d)
            self.depend(d)
            argv = ['ccpp_capgen.py', '--host-files', ','.join(sp.host_names()), '--scheme-files', 'schemes.txt', '--suites',
                    ','.join('suite_%s.xml' % x.name for x in sp.suites), '--host-name', sp.host, '--output-root', 'out'] + sp.flags
            rc = order.run(plan, argv, 'ccpp_capgen', '_main_func', d)
            out = order.tree(os.path.join(d, 'out'))
            if rc == 'ended':
                order.run(plan, ['ccpp_datafile.py'], 'ccpp_datafile', self.reports(out, d, [x.name for x in sp.suites]), d)
            return rc, out
        finally:
            shutil.rmtree(d, ignore_errors=True)


    def constituents(self, lay, plan, d):
        lay.emit(d)
        self.depend(d)
        argv = ['ccpp_capgen.py', '--host-files', 'vt_ctl.meta,vt_host.meta', '--scheme-files', 'schemes.txt', '--suites',
                ','.join('suite_%s.xml' % s for s, _ in lay.suites), '--host-name', lay.host, '--output-root', 'out']
        rc = order.run(plan, argv, 'ccpp_capgen', '_main_func', d)
        return rc, order.tree(os.path.join(d, 'out'))

    def reports(self, out, d, suites):
        """Add every report on the datatable to out."""
        def ask_all(m):
            for a in m.DatatableReport.valid_actions():
                if a == 'show':
                    continue
                for v in (suites if a.endswith('_variables') and a != 'host_variables' else [True]):
                    for x in (False, True):
                        try:
                            r = m.datatable_report(os.path.join(d, 'out', 'datatable.xml'), m.DatatableReport(a, v), ',', exclude_protected=x)
                        except m.CCPPDatatableError as e:
                            r = 'error: %s' % e
                        out['report --%s %s %s' % (a, v, x)] = r
        return ask_all


class Prebuild(Generate):
    functions = ('ccpp_prebuild.main', 'every function of the generator that visits a set or lists a directory')
    bounds = 'whole runs of ccpp_prebuild on scenarios of P21/P22, with the suites named or all of the directory; orders as above'

    def run(self, case, plan):
        d = self.scratch()
        try:
            sp = PS.REG[case.split(' ')[0]]()
            sp.emit(d)
            self.depend(d)
            argv = sp.cmd('', '')[1:]
            if case.endswith(' all'):
                argv = [a for a in argv if not a.startswith('--suites')]
            rc = order.run(plan, argv, 'ccpp_prebuild', 'main', d)
            return rc, {f: s for f, s in order.tree(os.path.join(d, 'build')).items()}
        finally:
            shutil.rmtree(d, ignore_errors=True)


Capgen.quick = tuple(CS.REG) + tuple('constituents ' + n for n in ('one', 'dyn', 'same', 'two', 'none'))
Prebuild.quick = tuple(PS.REG) + ('p_subcycles all', 'p_names all', 'p_history all')
HARNESSES = dict(capgen=Capgen(), prebuild=Prebuild())


def main(tier, only=None):
    return pmain('P28', tier, 'model_checking', ['sets of integers and dictionaries are visited in the same order in every run (CPython)'], [], [], only)

