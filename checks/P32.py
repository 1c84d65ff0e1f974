"""P32: the lists of sources that prebuild writes for the build systems name the right files, each once."""
import os
import shutil
import sys
import tempfile

from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.fs import FS
from vt.pysym.sym import text, mk, chs, ask, same, concretize
from vt.pysym.grammar import conj, disj, neg
from vt.prebuild.spec import PSpec, PScheme, PSuite
from vt.capgen.spec import V as PV


class Bad(Exception):
    pass


def body(t, head, tail):
    """The part of a text between two markers."""
    if head not in t or tail not in t.split(head, 1)[1]:
        raise Bad('no %s' % head.strip())
    return t.split(head, 1)[1].split(tail, 1)[0]


def cmake(t, var):
    return [x.strip() for x in body(t, 'set(%s\n' % var, '\n)' if 'set(%s\n)' % var not in t else ')').split('\n') if x.strip()]


def shell(t, var):
    return [x for x in body(t, 'export %s="' % var, '"\n').split(';') if x]


def make(t):
    """Variables of a makefile."""
    d, cur = {}, None
    for ln in t.split('\n'):
        if cur is None:
            ln = ln.strip()
            if not ln or ln.startswith('#'):
                continue
            if '=' not in ln:
                raise Bad('makefile line %r' % concretize(ln))
            k, ln = ln.split('=', 1)
            cur = d.setdefault(concretize(k.strip()), [])
        more = ln.endswith('\\')
        if more:
            ln = ln[:-1]
        cur += [x for x in ln.split(' ') if x.strip()]
        if not more:
            cur = None
    return {k: [x.strip() for x in v] for k, v in d.items()}


def listed(label, got, want):
    """Conditions: the list holds exactly the wanted names, each once."""
    out = [(disj(*[same(x, y) for y in got]), '%s: a file is missing' % label) for x in want]
    out += [(disj(*[same(x, y) for x in want]), '%s: names something else' % label) for y in got]
    out += [(neg(same(a, b)), '%s: names a file twice' % label) for i, a in enumerate(got) for b in got[:i]]
    return out


class Env:
    """Runs a step of ccpp_prebuild with the stand-in file system."""
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        self.pb = module('ccpp_prebuild')
        self.base = self.pb.BASEDIR
        self.pb.BASEDIR = self.fs.path('')
        self.fs.mkdir('b')
        return self.pb

    def __exit__(self, *a):
        self.pb.BASEDIR = self.base
        return False


def triple(fs, n):
    return [fs.path('b/%s.%s' % (n, e)) for e in ('mk', 'cmake', 'sh')]


class Lists(Harness):
    """The scheme and cap lists, from names of any of the four extensions."""
    functions = ('generate_schemes_makefile', 'generate_caps_makefile', 'SchemesMakefile.write', 'SchemesCMakefile.write', 'SchemesSourcefile.write',
                 'CapsMakefile.write', 'CapsCMakefile.write', 'CapsSourcefile.write')
    bounds = 'up to 3 files (4 in the thorough tier) in any order, with names of up to 3 characters of "afF90.", extensions .f .F .f90 .F90; a name may occur repeatedly'

    def cases(self, tier):
        o = [dict(what='caps', ext=(1,) * n) for n in range(0, 4)]
        for n in range(0, 3 if tier == 'quick' else 4):
            for m in range(2 ** n):
                o.append(dict(what='schemes', ext=tuple((m >> i) & 1 for i in range(n))))
        if tier == 'quick':
            o += [dict(what='schemes', ext=(0, 0, 0)), dict(what='schemes', ext=(1, 0, 1))]
        return o

    def inputs(self, case, eng):
        d = {}
        for i, e in enumerate(case['ext']):
            stem = chs(text('n%d' % i, 1, 'afF')) + (chs(text('m%d' % i, 1, '.F9')) + chs(text('o%d' % i, 1, 'Ff0')) if len(case['ext']) < 2 else [])
            if case['what'] == 'caps':
                d['f%d' % i] = mk(stem + list('.F90'))
            else:
                d['f%d' % i] = mk(list('/src/') + stem + ['.'] + chs(text('e%d' % i, 1, 'fF')) + (list('90') if e else []))
        if case['what'] == 'caps':
            eng.assume(conj(*[neg(same(a, b)) for i, a in enumerate(d.values()) for b in list(d.values())[:i]]))
        return d

    def agree(self, case, inp):
        names = [inp['f%d' % i] for i in range(len(case['ext']))]
        caps = case['what'] == 'caps'
        var = 'CAPS' if caps else 'SCHEMES'
        label = 'list of %s' % case['what']
        module('ccpp_prebuild')
        with FS([5]) as fs, Env(fs) as pb:
            if caps:
                fs.mkdir('c')
                o = outcome(pb.generate_caps_makefile, list(names), *(triple(fs, 'X') + [fs.path('c')]))
                want = [fs.path('c') + '/' + n for n in names]
            else:
                o = outcome(pb.generate_schemes_makefile, list(names), *triple(fs, 'X'))
                want = [n for i, n in enumerate(names) if not any(ask(same(n, x)) for x in names[:i])]
            if not o.ok or o.val is not True:
                return [(False, '%s: failed with %s' % (label, o.exc))]
            try:
                out = listed('cmake ' + label, cmake(fs.text('b/X.cmake'), var), want)
                out += listed('shell ' + label, shell(fs.text('b/X.sh'), 'CCPP_' + var), want)
                mkv = make(fs.text('b/X.mk'))
            except Bad as e:
                return [(False, '%s: %s' % (label, e))]
            if caps:
                return out + [(list(mkv) == ['CAPS_F90'], 'make %s: variables' % label)] + listed('make ' + label, mkv.get('CAPS_F90', []), want)
            out.append((sorted(mkv) == ['SCHEMES_F', 'SCHEMES_F90', 'SCHEMES_f', 'SCHEMES_f90'], 'make %s: variables' % label))
            for e in ('F', 'F90', 'f', 'f90'):
                out += listed('make %s (.%s)' % (label, e), mkv.get('SCHEMES_' + e, []), [w for w in want if w.endswith('.' + e)])
            return out


class Types(Harness):
    """The list of modules with type and kind definitions."""
    functions = ('generate_typedefs_makefile', 'TypedefsMakefile.write', 'TypedefsCMakefile.write', 'TypedefsSourcefile.write', 'decode_container_as_dict')
    bounds = 'two host variables, each: a type definition or not (type and standard name with a symbolic character), a kind definition or not (standard name, type, units), in modules whose names have a symbolic character'
    KINDS = ('type', 'kind', 'plain')

    def cases(self, tier):
        return [dict(a=a, b=b) for a in self.KINDS for b in self.KINDS] + [dict(a=a, b=None) for a in self.KINDS]

    def inputs(self, case, eng):
        d = {}
        for k in ('a', 'b'):
            v = case[k]
            if v is None:
                continue
            q = dict(mod=mk(chs(text(k + 'm', 1, 'xXy')) + ['_', 't']), intrinsic=eng.pick(['integer', 'real']))
            if v == 'type':
                q.update(std=mk(['q', '_'] + chs(text(k + 's', 1, 'tu'))), type=mk(['q', '_'] + chs(text(k + 't', 1, 'tu'))), units='DDT')
            elif v == 'kind':
                q.update(std=mk(chs(text(k + 's', 1, 'kb')) + list('ind') + chs(text(k + 'u', 1, '_s')) + [k]), type=q['intrinsic'], units=mk(list('no') + chs(text(k + 'n', 1, 'nd')) + ['e']))
            else:
                q.update(std='plain_' + k, type=q['intrinsic'], units='m')
            d[k] = q
        return d

    def agree(self, case, inp):
        import collections
        mk_ = module('mkcap')
        common = module('common')
        want = []
        mdef = collections.OrderedDict()
        for k in ('a', 'b'):
            if case[k] is None:
                continue
            q = inp[k]
            std = concretize(q['std'])
            isdef = case[k] == 'type' and ask(same(q['std'], q['type'])) or \
                case[k] == 'kind' and std.startswith('kind_') and concretize(q['type']) == 'integer' and concretize(q['units']) == 'none'
            v = mk_.Var(standard_name=std, long_name='l', units=q['units'], local_name='loc_' + k, type=q['type'], dimensions=[], kind='', intent='in',
                        container=common.encode_container(q['mod']))
            mdef.setdefault(std, []).append(v)
            if isdef and len(mdef[std]) == 1:
                want.append(q['mod'].lower() + '.mod')
        module('ccpp_prebuild')
        with FS([5]) as fs, Env(fs) as pb:
            o = outcome(pb.generate_typedefs_makefile, mdef, *triple(fs, 'X'))
            if not o.ok or o.val is not True:
                return [(False, 'list of types: failed with %s' % o.exc)]
            try:
                out = listed('cmake list of types', cmake(fs.text('b/X.cmake'), 'TYPEDEFS'), want)
                out += listed('shell list of types', shell(fs.text('b/X.sh'), 'CCPP_TYPEDEFS'), want)
                mkv = make(fs.text('b/X.mk'))
            except Bad as e:
                return [(False, 'list of types: %s' % e)]
            return out + [(list(mkv) == ['TYPEDEFS'], 'make list of types: variables')] + listed('make list of types', mkv.get('TYPEDEFS', []), want)


class Chain(Harness):
    """From the suites to the files to compile."""
    functions = ('filter_metadata', 'generate_list_of_schemes_and_dependencies_to_compile', 'generate_schemes_makefile')
    bounds = ('three schemes in three files (two of them possibly in one file), two suites that use any of them, dependencies of schemes and of host files '
              'from a pool of three files (any of them, also a scheme file)')

    def cases(self, tier):
        return [dict(nsuite=n, onefile=f) for n in (1, 2) for f in (False, True)]

    def inputs(self, case, eng):
        d = {'u%d%d' % (s, k): eng.bool('u%d%d' % (s, k)) for s in range(case['nsuite']) for k in range(3)}
        d.update({'d%d%d' % (k, j): eng.bool('d%d%d' % (k, j)) for k in range(4) for j in range(3) if (k + j) % 2 == 0})
        return d

    def agree(self, case, inp):
        import collections
        pb = module('ccpp_prebuild')
        mk_ = module('mkcap')
        common = module('common')
        names = ['one', 'two', 'three']
        files = ['/s/one.F90', '/s/one.F90' if case['onefile'] else '/s/two.F90', '/s/three.F90']
        pool = ['/d/x.F90', '/d/y.F90', '/s/three.F90']

        class Su:
            pass
        suites = []
        used = set()
        for s in range(case['nsuite']):
            u = [n for k, n in enumerate(names) if ask(inp['u%d%d' % (s, k)])]
            su = Su()
            su.name = 'su%d' % s
            su.all_schemes_called = u
            su.all_subroutines_called = [n + '_run' for n in u]
            suites.append(su)
            used |= set(u)
        deps = {n: [pool[j] for j in range(3) if (k + j) % 2 == 0 and ask(inp['d%d%d' % (k, j)])] for k, n in enumerate(names + ['host'])}
        meta = collections.OrderedDict((('var_' + n), [mk_.Var(standard_name='var_' + n, long_name='l', units='m', local_name='v', type='real', dimensions=[], kind='', intent='in',
                                                               container=common.encode_container(n, n, n + '_run'))]) for n in names)
        args = collections.OrderedDict((n, {n + '_run': ['var_' + n]}) for n in names)
        o = outcome(pb.filter_metadata, meta, args, collections.OrderedDict((n, deps[n]) for n in names), collections.OrderedDict(zip(names, files)), suites)
        if not o.ok or o.val[0] is not True:
            return [(False, 'filtering failed')]
        _, m, a, dp, sif = o.val
        out = [(sorted(m) == sorted('var_' + n for n in used), 'variables of the schemes used are kept, and only those'),
               (sorted(a) == sorted(used), 'argument lists of the schemes used are kept, and only those')]
        o = outcome(pb.generate_list_of_schemes_and_dependencies_to_compile, sif, dp, collections.OrderedDict(host=deps['host']))
        if not o.ok or o.val[0] is not True:
            return out + [(False, 'listing failed')]
        want = {f for n, f in zip(names, files) if n in used} | {d for n in names if n in used for d in deps[n]} | set(deps['host'])
        out.append((sorted(o.val[1]) == sorted(want), 'the files to compile are those of the schemes used and all dependencies, each once'))
        hosts = ['/d/y.F90', 'host.F90', '/s/two.F90']
        with FS([5]) as fs, Env(fs):
            o = outcome(pb.generate_schemes_makefile, o.val[1] + hosts, *triple(fs, 'X'))
            if not o.ok or o.val is not True:
                return out + [(False, 'writing the list failed')]
            return out + listed('list of a run', cmake(fs.text('b/X.cmake'), 'SCHEMES'), sorted(want | {'/d/y.F90', '/s/two.F90', fs.path('host.F90')}))


class Whole(Harness):
    """A complete run of ccpp_prebuild, from the configuration to the lists."""
    functions = ('main of ccpp_prebuild', 'gather_variable_definitions', 'collect_physics_subroutines', 'parse_variable_tables', 'parse_scheme_tables')
    bounds = ('three schemes in three files, two suites of one or two of them, named or found in the folder; dependencies of the host table and of two schemes: none, a file, '
              'two, in the folder or another one; two of the scheme files have the same name')
    budget = 500

    def cases(self, tier):
        return [dict(host=h, named=n) for h in range(3) for n in (True, False)]

    def inputs(self, case, eng):
        return dict(first=eng.choose(3), second=eng.choose(3), suites=eng.choose(4))

    DEPS = ((), ('dep_x.F90',), ('dep_y.f90', 'dep_x.F90'))

    def agree(self, case, inp):
        nx = PV('nx', 'size_x', 'count', 'integer')
        x = PV('x', 'qty_a', 'm', dims=('size_x',), intent='inout')
        sch = [PScheme(n, {'init': [x], 'run': [x]}) for n in ('s1', 's2', 's3')]
        used = (('s1',), ('s2',), ('s1', 's2'), ('s2', 's1'))[inp['suites']]
        suites = [PSuite('sa', [('g1', [(1, [used[0]])])])] + [PSuite('sb', [('g1', [(1, [n])])]) for n in used[1:]]
        spec = PSpec('lists', [nx, PV('a', 'qty_a', 'm', dims=('size_x',))], sch, suites)
        deps = {'data': self.DEPS[case['host']], 's1': self.DEPS[inp['first']], 's2': self.DEPS[inp['second']], 's3': ('dep_z.F90',)}
        d, cwd, path, argv = tempfile.mkdtemp(prefix='vtp32'), os.getcwd(), list(sys.path), sys.argv
        d = os.path.realpath(d)
        pb = module('ccpp_prebuild')
        base, log = pb.BASEDIR, pb.setup_logging
        try:
            spec.emit(d)
            for n in ('more', 'lib'):
                os.mkdir(os.path.join(d, n))
            files = {n: os.path.join(d, n + '.F90') for n in ('data', 's1', 's2', 's3')}
            files['s2'] = os.path.join(d, 'more', 's1.F90')        # a file of the same name in another folder
            for e in ('.F90', '.meta'):
                os.rename(os.path.join(d, 's2' + e), files['s2'][:-4] + e)
            with open(os.path.join(d, 'ccpp_prebuild_config.py')) as i:
                old = i.read()
            with open(os.path.join(d, 'ccpp_prebuild_config.py'), 'w') as o:
                o.write(old.replace("'s2.F90'", "'more/s1.F90'"))
            for t, fs in deps.items():
                rel = 'lib' if t == 's2' else '.'
                for f in fs:
                    with open(os.path.join(d, rel, f), 'w') as o:
                        o.write('module m\nend module m\n')
                m = files[t][:-4] + '.meta'
                with open(m) as i:
                    old = i.read()
                head = '  name = %s\n' % t
                a, b = old.split(head, 1)
                b = '\n'.join(z for z in b.split('\n') if z.strip() != 'dependencies =')
                with open(m, 'w') as o:
                    o.write(a + head + ('  dependencies = %s\n' % ', '.join(fs) if fs else '') + ('  relative_path = ../lib\n' if rel == 'lib' else '') + b)
            os.chdir(d)
            pb.BASEDIR = d
            pb.setup_logging = lambda v: True
            sys.argv = ['ccpp_prebuild.py', '--config=ccpp_prebuild_config.py', '--builddir=build'] + (['--suites=' + ','.join('suite_' + z.name for z in suites)] if case['named'] else [])
            sys.modules.pop('ccpp_prebuild_config', None)
            getattr(module('metadata_parser'), 'NEW_METADATA_SAVE', {}).clear()     # each run is a process of its own
            o = outcome(pb.main)
            cfg = sys.modules.get('ccpp_prebuild_config')
            if not o.ok:
                return [(False, 'run failed with %s' % o.exc)]
            defs = [os.path.abspath(f) for f in cfg.VARIABLE_DEFINITION_FILES]

            def rd(n):
                with open(os.path.join(d, 'build', n)) as f:
                    return f.read()
            want = {files[n] for n in used} | set(defs)
            for t in ('data',) + used:
                want |= {os.path.join(d, 'lib' if t == 's2' else '', f) for f in deps[t]}
            caps = {os.path.join(d, 'build', f) for z in suites for f in ('ccpp_%s_cap.F90' % z.name, 'ccpp_%s_g1_cap.F90' % z.name)}
            norm = lambda l: [os.path.normpath(z) for z in l]
            try:
                out = [(sorted(norm(cmake(rd('CCPP_SCHEMES.cmake'), 'SCHEMES'))) == sorted(want), 'cmake list of schemes of a run'),
                       (sorted(norm(shell(rd('CCPP_SCHEMES.sh'), 'CCPP_SCHEMES'))) == sorted(want), 'shell list of schemes of a run'),
                       (sorted(norm(sum(make(rd('CCPP_SCHEMES.mk')).values(), []))) == sorted(want), 'make list of schemes of a run'),
                       (sorted(norm(cmake(rd('CCPP_CAPS.cmake'), 'CAPS'))) == sorted(caps), 'cmake list of caps of a run'),
                       (sorted(norm(make(rd('CCPP_CAPS.mk')).get('CAPS_F90', []))) == sorted(caps), 'make list of caps of a run'),
                       (sorted(f for f in os.listdir('build') if f.startswith('ccpp_s') and f.endswith('_cap.F90')) == sorted(os.path.basename(c) for c in caps), 'caps of a run'),
                       (sorted(cmake(rd('CCPP_TYPEDEFS.cmake'), 'TYPEDEFS')) == ['ccpp_kinds.mod', 'ccpp_types.mod'], 'list of types of a run')]
            except Bad as e:
                return [(False, 'lists of a run: %s' % e)]
            return out
        finally:
            pb.BASEDIR, pb.setup_logging = base, log
            os.chdir(cwd)
            sys.path[:] = path
            sys.argv = argv
            sys.modules.pop('ccpp_prebuild_config', None)
            shutil.rmtree(d, ignore_errors=True)


HARNESSES = dict(lists=Lists(), types=Types(), chain=Chain(), whole=Whole())


def main(tier, only=None):
    return pmain('P32', tier, 'model_checking',
                 ['the file system is a stand-in in the explorer and the real one in the replay', 'names hold no blanks, semicolons or quotes'],
                 ['see the harnesses'], ['see the harnesses'], only)
