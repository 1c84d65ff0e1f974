"""P24: generated files always end up current, and unchanged ones are left alone."""
import copy
import logging
import os
import shutil
import sys
import tempfile
import z3
from vt.pysym.check import Harness, module, outcome, main as pmain, NATIVE
from vt.pysym.fs import FS, Old
from vt.pysym.gen import Log
from vt.pysym.sym import ask, SymInt, text, mk, chs
from vt.pysym.grammar import conj, disj, neg, implies
from vt.prebuild.spec import PSpec, PScheme, PSuite, V as PV
from vt.capgen.spec import Spec, Mod, Scheme, Suite, V

CLOCK = 3


def sint(v):
    return SymInt(v) if isinstance(v, z3.ExprRef) else v


class Aged(Harness):
    """inputs(): for every file named in files(case) whether an older version is there, and what is known about it."""
    stale = ()

    def present(self, case, f):
        """True, False or None (either)."""
        return None

    def fixed(self, case, f):
        """Contents relation fixed by the case: None (any), True (same contents)."""
        return None

    def inputs(self, case, eng):
        d = {}
        for f in self.files(case):
            p = self.present(case, f)
            d[f] = dict(there=eng.bool('there_' + f) if p is None else p, eq=eng.bool('eq_' + f) if self.fixed(case, f) is None else True,
                        samesize=eng.bool('size_' + f), age=eng.int('age_' + f, 0, 1000))
        c = [eng.int('clock%d' % k, 0, 1000) for k in range(CLOCK)]
        for a, b in zip(c, c[1:]):
            eng.assume(a <= b)
        d['clock'] = c
        self.more(case, d, eng)
        return d

    def more(self, case, d, eng):
        pass

    def old(self, fs, rel, inp, f, ref):
        if ask(inp[f]['there']):
            fs.put(rel, Old(ref, inp[f]['eq'], inp[f]['samesize']), sint(inp[f]['age']))
            return True
        return False

    def clock(self, inp):
        return [sint(x) for x in inp['clock']]


class Move(Aged):
    functions = ('move_modified_files', 'remove_dir')
    bounds = ('up to 3 generated files (one of them in a subdirectory) of any contents; any older versions (any contents, size, modification time) and '
              'unrelated files in the target; with and without overwrite and removal of the source directory')
    budget = 300

    def cases(self, tier):
        return [dict(sub=s, rm=r, same=x) for s in (False, True) for r in (False, True) for x in ('', 'same', 'dup')
                if not (s and x == 'same') and not (x == 'dup' and r)]

    def files(self, case):
        return ['a.F90', 'b.F90', 'sub/c.F90'] if case['sub'] else ['a.F90', 'b.F90']

    def more(self, case, d, eng):
        d['over'] = eng.bool('overwrite')

    def agree(self, case, inp):
        fu = module('file_utils')
        fl = self.files(case)
        new = {f: 'new contents of %s\nlast line\n' % f for f in fl}
        with FS(self.clock(inp)) as fs:
            fs.mkdir('out/tmp' if case['same'] != 'same' else 'out')
            src = 'out/tmp' if case['same'] != 'same' else 'out'
            if case['sub']:
                fs.mkdir('out/sub')
                fs.mkdir(src + '/sub')
            if case['same'] == 'dup':
                fs.mkdir(src + '/other')
                fs.put(src + '/other/a.F90', 'again', 5)
            there = {}
            for f in fl:
                if case['same'] == 'same':
                    fs.put('out/' + f, new[f], 5)
                    continue
                there[f] = self.old(fs, 'out/' + f, inp, f, new[f])
                fs.put('%s/%s' % (src, f), new[f], sint(inp['clock'][0]))
            fs.put('out/unrelated.txt', 'something else', 7)
            fs.tick = 1
            over = ask(inp['over'])
            o = outcome(fu.move_modified_files, fs.path(src), fs.path('out') + ('/' if case['same'] == 'same' else ''), overwrite=over, remove_src=case['rm'])
            out = [(fs.untouched('out/unrelated.txt'), 'a file that was not generated is left alone')]
            if case['same'] == 'dup':
                return out + [(not o.ok and o.exc == 'CCPPError', 'two generated files of the same name are reported, not mixed up: %r' % (o,))]
            if not o.ok:
                return out + [(False, 'moving generated files failed with %s' % o.exc)]
            for f in fl:
                out.append((fs.holds('out/' + f, new[f]), 'the output directory holds the new contents of %s' % f))
                if case['same'] == 'same':
                    out.append((fs.untouched('out/' + f), 'files already in place are left alone'))
                elif there[f] and not over:
                    out.append((implies(inp[f]['eq'], fs.untouched('out/' + f)), 'a file whose contents did not change is left as it was (%s)' % f))
                if case['same'] != 'same':
                    out.append(('%s/%s' % (src, f) not in fs.names(), 'no copy of %s stays in the staging directory' % f))
            if case['rm'] and case['same'] != 'same':
                out.append((src not in fs.folders(), 'the staging directory is removed'))
            return out


def capspec():
    H = 'horizontal_dimension'
    return Spec('current', [Mod('host_data', [V('ncols', H, 'count', 'integer'), V('temp', 'the_temperature', 'K', dims=(H,))])],
                [Scheme('sch_a', {'run': [V('t', 'the_temperature', 'K', dims=('horizontal_loop_extent',), intent='inout')]})],
                [Suite('suite_one', [('grp', ['sch_a'])])])


class Capgen(Aged):
    functions = ('capgen', 'API.write', 'Suite.write', 'write_host_cap', 'create_kinds_file', 'FortranWriter', 'move_modified_files', 'remove_dir',
                 'generate_ccpp_datatable', 'write_ccpp_table')
    bounds = ('a whole capgen run (one suite) into an output directory that is missing, empty, or holds any older versions (any contents, size, age) of any '
              'of the generated files, unrelated files and leftovers of an interrupted run; with and without --force-overwrite')
    budget = 800

    def cases(self, tier):
        return [dict(dir=d, force=f) for d in ('missing', 'empty') for f in (False,)] + [dict(dir='used', force=f, junk=j) for f in (False, True) for j in (False, True)]

    NAMES = ('ccpp_kinds.F90', 'ccpp_suite_one_cap.F90', 'test_host_ccpp_cap.F90', 'datatable.xml')

    def files(self, case):
        return list(self.NAMES) if case['dir'] == 'used' else []

    def run(self, fs, d, force):
        cg = module('ccpp_capgen')
        hf = ','.join(os.path.join(d, n) for n in ('host_data.meta', 'test_host.meta'))
        env = module('framework_env').CCPPFrameworkEnv(Log(), ndict=dict(
            host_files=hf, scheme_files=os.path.join(d, 'sch_a.meta'), suites=os.path.join(d, 'suite_suite_one.xml'), host_name='test_host',
            output_root=fs.path('out'), force_overwrite=force), kind_types=['kind_phys=REAL64'])
        return outcome(cg.capgen, env)

    def agree(self, case, inp):
        d = tempfile.mkdtemp(prefix='vtp24')
        cg = module('ccpp_capgen')
        saved = {n: cg.__dict__[n] for n in ('find_associated_fortran_file', 'parse_fortran_file', 'check_fortran_against_metadata')}
        cg.find_associated_fortran_file = lambda f: f[:-5] + '.F90'
        cg.parse_fortran_file = lambda f, env: ([], [])
        cg.check_fortran_against_metadata = lambda *a, **k: None
        root = None
        try:
            spec = capspec()
            spec.emit(d)
            with FS([5]) as fs:
                o = self.run(fs, d, False)
                if not o.ok:
                    return [(False, 'a run into a missing directory failed: %r' % o.val)]
                names = [x[4:] for x in fs.names()]
                new = {f: fs.text('out/' + f) for f in names}
                root = fs.root
            if case['dir'] == 'missing':
                return [(set(self.NAMES) <= set(names), 'all files are generated'), (fs.folders() == ['out'] if not NATIVE else True, 'no leftovers')]
            with FS(self.clock(inp), root) as fs:
                new = {f: t.replace(root, fs.root) for f, t in new.items()}
                fs.mkdir('out')
                there = {}
                if case['dir'] == 'used':
                    fs.put('out/unrelated.txt', 'something else', 7)
                    for f in new:
                        there[f] = self.old(fs, 'out/' + f, inp, f, new[f])
                    if case['junk']:
                        fs.mkdir('out/ccpp_temp_scratch_dir')
                        fs.put('out/ccpp_temp_scratch_dir/ccpp_suite_one_cap.F90', 'an interrupted ru', 7)
                        fs.put('out/ccpp_temp_scratch_dir/ccpp_gone_cap.F90', 'another suite', 7)
                fs.tick = 1
                o = self.run(fs, d, case['force'])
                if not o.ok:
                    return [(False, 'generation failed with %r' % o.val)]
                out = []
                if case['dir'] == 'used':
                    out.append((fs.untouched('out/unrelated.txt'), 'a file that was not generated is left alone'))
                for f in new:
                    out.append((fs.holds('out/' + f, new[f]), 'the output directory holds the new contents of %s' % f))
                    if there.get(f) and not case['force'] and f.endswith('.F90'):
                        out.append((implies(inp[f]['eq'], fs.untouched('out/' + f)), 'a source file whose contents did not change is left as it was (%s)' % f))
                out.append((fs.folders() == ['out'], 'no staging directory stays behind'))
                out.append((sorted(fs.names()) == sorted(['out/' + f for f in new] + (['out/unrelated.txt'] if case['dir'] == 'used' else [])),
                            'no other files appear'))
                return out
        finally:
            cg.__dict__.update(saved)
            shutil.rmtree(d, ignore_errors=True)


class Prebuild(Aged):
    """The generating steps of a ccpp_prebuild run, from the parsed metadata and suites on."""
    budget = 600
    scheme_dir = None

    def spec(self):
        nx = PV('nx', 'size_x', 'count', 'integer')
        x = PV('x', 'qty_a', 'm', dims=('size_x',), intent='inout')
        hosts = [nx, PV('a', 'qty_a', 'm', dims=('size_x',))]
        sch = [PScheme('s1', {'init': [x], 'run': [x]}), PScheme('s2', {'run': [x]})]
        return PSpec('current', hosts, sch, [PSuite('sa', [('g1', [(1, ['s1'])]), ('g2', [(1, ['s2'])])])])

    def prepare(self):
        """Parses the metadata and suites, in a scratch directory of the real file system."""
        d, cwd, path = tempfile.mkdtemp(prefix='vtp24'), os.getcwd(), list(sys.path)
        pb = module('ccpp_prebuild')
        base = pb.BASEDIR
        try:
            spec = self.spec()
            spec.emit(d)
            os.chdir(d)
            pb.BASEDIR = d
            ok, cfg = pb.import_config('ccpp_prebuild_config.py', 'build')
            ok, suites = pb.parse_suites('.', ['suite_%s.xml' % s.name for s in spec.suites])
            ok, mdef, dep = pb.gather_variable_definitions(cfg['variable_definition_files'], cfg['typedefs_new_metadata'])
            ok, mreq, areq, dreq, sif = pb.collect_physics_subroutines(cfg['scheme_files'])
            ok, mreq, areq, dreq, sif = pb.filter_metadata(mreq, areq, dreq, sif, suites)
            ok, mreq = pb.add_ccpp_suite_variables(mreq)
            ok, todo = pb.generate_list_of_schemes_and_dependencies_to_compile(sif, dreq, dep)
            ok, modules, meta = pb.compare_metadata(mdef, mreq)
            return dict(cfg=cfg, suites=suites, mdef=mdef, mreq=mreq, areq=areq, todo=['/sources/' + os.path.basename(t) for t in todo])
        finally:
            pb.BASEDIR = base
            os.chdir(cwd)
            sys.path[:] = path
            sys.modules.pop('ccpp_prebuild_config', None)
            shutil.rmtree(d, ignore_errors=True)

    def generate(self, fs, p):
        pb = module('ccpp_prebuild')
        base = pb.BASEDIR
        pb.BASEDIR = fs.path('')
        p = copy.deepcopy(p, {id(f): f for f in (sys.stdout, sys.__stdout__)})
        c = p['cfg']
        try:
            ok = []

            def snip(n):
                return [c[n + k] for k in ('_makefile', '_cmakefile', '_sourcefile')]
            if 'typedefs' in self.steps:
                ok.append(pb.generate_typedefs_makefile(p['mdef'], *snip('typedefs')))
            if 'schemes' in self.steps:
                ok.append(pb.generate_schemes_makefile(list(p['todo']), *snip('schemes')))
            if 'caps' in self.steps:
                r, caps = pb.generate_suite_and_group_caps(p['suites'], p['mreq'], p['mdef'], p['areq'], c['caps_dir'], False)
                ok.append(r)
                r, api = pb.generate_static_api(p['suites'], c['static_api_dir'], '')
                ok += [r, api.write_includefile(c['static_api_sourcefile'], type='shell'), api.write_includefile(c['static_api_cmakefile'], type='cmake')]
            if 'capsmk' in self.steps:
                ok.append(pb.generate_caps_makefile(['ccpp_sa_g1_cap.F90', 'ccpp_sa_cap.F90'], *(snip('caps') + [c['caps_dir']])))
            return all(ok)
        finally:
            pb.BASEDIR = base

    def below(self, f):
        """Generated files whose change also renews f, even where the contents of f are the same."""
        return ()

    def agree(self, case, inp):
        self.case(case)
        p = self.prepare()
        with FS([5]) as fs:
            fs.mkdir('build')
            o = outcome(self.generate, fs, p)
            if not o.ok or o.val is not True:
                return [(False, 'generation into an empty directory failed: %r' % (o.val,))]
            new = {n: fs.text(n) for n in fs.names()}
            root = fs.root
        if sorted(new) != sorted('build/' + f for f in self.files(case)):
            return [(False, 'other files are generated: %r' % sorted(new))]
        with FS(self.clock(inp), root) as fs:
            new = {f: t.replace(root, fs.root) for f, t in new.items()}
            fs.mkdir('build')
            fs.put('build/unrelated.txt', 'something else', 7)
            there = {f: self.old(fs, f, inp, f[6:], new[f]) for f in sorted(new)}
            fs.tick = 1
            o = outcome(self.generate, fs, p)
            if not o.ok or o.val is not True:
                return [(False, 'generation failed: %r' % (o.val,))]
            out = [(fs.untouched('build/unrelated.txt'), 'a file that was not generated is left alone')]
            for f in sorted(new):
                out.append((fs.holds(f, new[f]), '%s has its new contents' % f))
                dep = [x for x in sorted(new) if f in self.same(x) or x in self.below(f)]
                if there[f] and all(there[x] for x in dep):
                    out.append((implies(conj(*[inp[x[6:]]['eq'] for x in [f] + dep]), fs.untouched(f)), '%s is left as it was when nothing changed' % f))
            out.append((sorted(fs.names()) == sorted(list(new) + ['build/unrelated.txt']), 'no temporary or other files stay behind'))
            return out

    def case(self, case):
        pass

    def same(self, f):
        return ()


class Snippets(Prebuild):
    functions = ('generate_typedefs_makefile', 'generate_schemes_makefile', 'generate_caps_makefile', 'TypedefsMakefile', 'SchemesMakefile', 'CapsMakefile')
    bounds = ('the three sets of build snippets of one ccpp_prebuild run; any older versions of the three files of a set (missing or any contents, size, '
              'modification time)')

    def cases(self, tier):
        return [dict(set=s) for s in ('typedefs', 'schemes', 'capsmk')]

    def case(self, case):
        self.steps = [case['set']]

    def files(self, case):
        n = case['set'].replace('capsmk', 'caps').upper()
        return ['CCPP_%s.%s' % (n, e) for e in ('mk', 'cmake', 'sh')]

    def same(self, f):
        n = f.rsplit('.', 1)[0]
        return [n + e for e in ('.mk', '.cmake', '.sh') if n + e != f]


class Caps(Prebuild):
    functions = ('generate_suite_and_group_caps', 'generate_static_api', 'Suite.write', 'Group.write', 'API.write', 'API.write_includefile')
    bounds = ('the caps, static API and include files of one ccpp_prebuild run (one suite of two groups); any older versions (missing or any contents, size, '
              'modification time) of four of the six files at a time')
    steps = ('caps',)
    ALL = ['ccpp_sa_g1_cap.F90', 'ccpp_sa_g2_cap.F90', 'ccpp_sa_cap.F90', 'ccpp_static_api.F90', 'CCPP_API.sh', 'CCPP_API.cmake']

    def cases(self, tier):
        return [dict(free=(0, 1, 2)), dict(free=(0, 2, 3)), dict(free=(2, 3, 4)), dict(free=(3, 4, 5))] if tier == 'quick' else \
            [dict(free=(0, 1, 2, 3)), dict(free=(2, 3, 4, 5)), dict(free=(0, 3, 4, 5)), dict(free=(0, 1, 4, 5))]

    def files(self, case):
        return self.ALL

    def present(self, case, f):
        return None if self.ALL.index(f) in case['free'] else True

    def fixed(self, case, f):
        return None if self.ALL.index(f) in case['free'] else True

    def below(self, f):
        g = ['build/' + x for x in self.ALL]
        return {g[2]: g[:2], g[3]: g[:3], g[4]: g[:4], g[5]: g[:4]}.get(f, ())


HARNESSES = {'move': Move(), 'capgen': Capgen(), 'snippets': Snippets(), 'caps': Caps()}


def main(tier, only=None):
    return pmain('P24', tier, 'model_checking',
                 ['the file system is a stand-in in the explorer (files: contents, size, modification time; no permissions, links or failures) and the real one '
                  'in the replay', 'metadata and Fortran sources are not compared'],
                 ['see the harnesses'], ['see the harnesses'], only)
