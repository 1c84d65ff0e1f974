"""Scenario programs for ccpp_prebuild: host data, schemes, suite definition files and configuration."""
import os
from ..capgen.spec import V
from ..runner import REPO

H, HL = 'horizontal_dimension', 'horizontal_loop_extent'
STAGES = ('init', 'timestep_init', 'run', 'timestep_finalize', 'finalize')


class PScheme:
    """entries: stage -> argument list (errmsg and errflg are added), None: an entry with an empty argument table."""
    def __init__(self, name, entries):
        self.name, self.entries = name, entries
        self.module = name

    def proc(self, st):
        return '%s_%s' % (self.name, st)

    def args_of(self, st):
        """Whether there is an entry point for the stage that gets called."""
        return self.entries.get(st) is not None

    def args(self, st):
        a = self.entries[st]
        if a is None:
            return []
        return a + [V('errmsg', 'ccpp_error_message', 'none', 'character', 'len=*', intent='out'),
                    V('errflg', 'ccpp_error_code', '1', 'integer', intent='out')]


class PSuite:
    """groups: list of (name, [(loop, [schemes])])."""
    def __init__(self, name, groups):
        self.name, self.groups = name, groups


class PSpec:
    """kind: plain (whole arrays), chunked (sections of whole arrays in the run stage), blocked (arrays of blocks).
    blocked: components of the block type."""
    def __init__(self, name, hosts, schemes, suites, kind='plain', blocks=(), flags=(), values=None, sizes=None, ddts=(), blksz=(2, 1), notes='', threaded=()):
        self.name, self.hosts, self.suites, self.kind, self.blocks, self.flags = name, list(hosts), suites, kind, list(blocks), list(flags)
        self.schemes = {s.name: s for s in schemes}
        self.scheme_order = list(self.schemes)
        self.threaded = list(threaded)  # components of a type with one instance per thread
        self.ddts = list(ddts)          # (type, instance, components)
        self.sizes = sizes or {}
        self.blksz = list(blksz)
        self.props = {'P21', 'P22'}
        self.values = values or {}
        self.notes = notes

    # ---------------------------------------------------------------- host side
    def allvars(self):
        return self.hosts + [v for _, _, vs in self.ddts for v in vs] + self.blocks + self.threaded

    def group_names(self, su):
        return [g for g, _ in su.groups]

    def dims(self):
        """Host dimension variables: standard name -> V."""
        return {v.std: v for v in self.hosts if not v.dims and v.type == 'integer'}

    def hostmeta(self):
        o = []
        if self.blocks:
            o += ['[ccpp-table-properties]', '  name = blk_t', '  type = ddt', '  dependencies =', '[ccpp-arg-table]', '  name = blk_t', '  type = ddt']
            for v in self.blocks:
                o += self.withlong(v)
        for t, vs in [(t, vs) for t, _, vs in self.ddts] + [('thr_t', self.threaded)][:len(self.threaded)]:
            o += ['[ccpp-table-properties]', '  name = ' + t, '  type = ddt', '  dependencies =', '[ccpp-arg-table]', '  name = ' + t, '  type = ddt']
            for v in vs:
                o += self.withlong(v)
        o += ['[ccpp-table-properties]', '  name = data', '  type = module', '  dependencies =', '[ccpp-arg-table]', '  name = data', '  type = module']
        o += ['[ cdata ]', '  standard_name = ccpp_t_instance', '  long_name = instance', '  units = DDT', '  dimensions = ()', '  type = ccpp_t']
        ctl = []
        if self.kind in ('chunked', 'mixed'):
            ctl = [V('nchunks', 'ccpp_chunk_extent', 'count', 'integer'),
                   V('chunk_begin', 'horizontal_loop_begin_all_chunks', 'index', 'integer', dims=('ccpp_chunk_extent',)),
                   V('chunk_begin(ccpp_chunk_number)', 'horizontal_loop_begin', 'index', 'integer'),
                   V('chunk_end', 'horizontal_loop_end_all_chunks', 'index', 'integer', dims=('ccpp_chunk_extent',)),
                   V('chunk_end(ccpp_chunk_number)', 'horizontal_loop_end', 'index', 'integer')]
        if self.kind in ('blocked', 'mixed'):
            ctl += [V('nblks', 'ccpp_block_count', 'count', 'integer'),
                   V('blksz', 'ccpp_block_sizes', 'count', 'integer', dims=('ccpp_block_count',)),
                   V('blksz(ccpp_block_number)', HL, 'count', 'integer'),
                   V('blk_t', 'blk_t', 'DDT', 'blk_t'),
                   V('blk(ccpp_block_number)', 'blk_instance', 'DDT', 'blk_t'),
                   V('blk', 'blk_instance_all', 'DDT', 'blk_t', dims=('ccpp_block_count',))]
        if self.threaded:
            ctl += [V('thr_t', 'thr_t', 'DDT', 'thr_t'), V('thr(ccpp_thread_number)', 'thr_instance', 'DDT', 'thr_t'),
                    V('thr', 'thr_instance_all', 'DDT', 'thr_t', dims=('ccpp_thread_count',))]
        for t, inst, _ in self.ddts:
            ctl += [V(t, t, 'DDT', t), V(inst, 'instance_of_' + t, 'DDT', t)]
        for v in self.hosts + ctl:
            o += self.withlong(v)
        return o

    @staticmethod
    def withlong(v):
        m = v.meta()
        if v.isddt:
            m.insert(2, '  units = DDT')
        m.insert(2, '  long_name = %s' % v.std)
        return m

    def fdim(self, d):
        for v in self.hosts:
            if v.std == d.split(':')[-1]:
                return v.local
        return d

    def hostf90(self):
        o = ['module data', '', '!! \\section arg_table_data Argument Table', '!! \\htmlinclude data.html', '!!',
             'use ccpp_types, only: ccpp_t', 'use ccpp_kinds, only: kind_phys', 'implicit none', 'public']
        if self.blocks:
            o += ['!! \\section arg_table_blk_t', '!! \\htmlinclude blk_t.html', '!!', 'type blk_t']
            for v in self.blocks:
                if not v.noemit:
                    o.append('%s, allocatable :: %s(%s)' % (v.ftype(), v.local, ','.join(':' * len(v.dims))))
            o.append('end type blk_t')
        for t, inst, vs in self.ddts + [('thr_t', 'thr', self.threaded)][:len(self.threaded)]:
            o += ['!! \\section arg_table_%s' % t, '!! \\htmlinclude %s.html' % t, '!!', 'type ' + t]
            for v in vs:
                if not v.noemit:
                    o.append('%s%s :: %s%s' % (v.ftype().replace('len=*', 'len=8'), ', allocatable' if v.dims else '', v.base, '(%s)' % ','.join(':' * len(v.dims)) if v.dims else ''))
            o += ['end type ' + t, 'type(%s), %starget :: %s' % (t, 'allocatable, ' if t == 'thr_t' else '', inst + ('(:)' if t == 'thr_t' else ''))]
        if self.blocks:
            o += ['integer :: nblks', 'integer, allocatable :: blksz(:)', 'type(blk_t), allocatable, target :: blk(:)']
        if self.kind in ('chunked', 'mixed'):
            o += ['integer :: nchunks', 'integer, allocatable :: chunk_begin(:), chunk_end(:)']
        for v in self.hosts:
            if v.noemit:
                continue
            t = v.ftype().replace('len=*', 'len=8')
            if v.dims or v.fdims:
                o.append('%s, allocatable, target :: %s(%s)' % (t, v.base, ','.join(':' * len(v.fdims or v.dims))))
            else:
                o.append('%s, target :: %s' % (t, v.local))
        return o + ['end module data']

    # ---------------------------------------------------------------- schemes
    def scheme_f90(self, s, mk):
        return self.schemef90(s, mk)

    def schemef90(self, s, mk=None):
        o = ['module %s' % s.name, 'use ccpp_kinds, only: kind_phys', 'implicit none', 'private']
        o += ['public :: %s_%s' % (s.name, st) for st in s.entries]
        o += ['contains', '']
        for st in s.entries:
            a = s.args(st)
            if a:
                o += ['!> \\section arg_table_%s_%s Argument Table' % (s.name, st), '!! \\htmlinclude %s_%s.html' % (s.name, st), '!!']
            o.append('subroutine %s_%s(%s)' % (s.name, st, ', &\n   '.join(v.local for v in a)))
            for v in a:
                at = ['intent(%s)' % v.intent]
                if v.optional:
                    at.append('optional')
                d = '(%s)' % ','.join(':' * len(v.dims)) if v.dims else ''
                o.append('%s, %s :: %s%s' % (v.ftype(), ', '.join(at), v.local, d))
            o += (mk(s, st, a) if mk and a else self.body(s, st)) + ['end subroutine %s_%s' % (s.name, st), '']
        return o + ['end module %s' % s.name]

    def body(self, s, st):
        a = s.args(st)
        return ["errmsg = ''", 'errflg = 0'] if a else []

    def schememeta(self, s):
        o = ['[ccpp-table-properties]', '  name = %s' % s.name, '  type = scheme', '  dependencies =']
        for st in s.entries:
            if not s.args(st):
                continue
            o += ['[ccpp-arg-table]', '  name = %s_%s' % (s.name, st), '  type = scheme']
            for v in s.args(st):
                m = v.meta()
                m.insert(2, '  long_name = %s' % v.std)
                o += m
        return o

    def xml(self, su):
        o = ['<?xml version="1.0" encoding="UTF-8"?>', '<suite name="%s" version="1">' % su.name]
        for g, subs in su.groups:
            o.append('  <group name="%s">' % g)
            for n, sch in subs:
                o += ['    <subcycle loop="%d">' % n] + ['      <scheme>%s</scheme>' % x for x in sch] + ['    </subcycle>']
            o.append('  </group>')
        return o + ['</suite>']

    def config(self):
        td = {'ccpp_types': {'ccpp_t': 'cdata', 'ccpp_types': ''}, 'data': {'data': ''}}
        if self.blocks:
            td['data']['blk_t'] = 'blk(cdata%blk_no)'
        if self.threaded:
            td['data']['thr_t'] = 'thr(cdata%thrd_no)'
        for t, inst, _ in self.ddts:
            td['data'][t] = inst
        o = ['HOST_MODEL_IDENTIFIER = "FV3"',
             'VARIABLE_DEFINITION_FILES = %r' % [os.path.join(REPO, 'src', 'ccpp_types.F90'), 'ccpp_kinds.F90', 'data.F90'],
             'TYPEDEFS_NEW_METADATA = %r' % td, 'SCHEME_FILES = %r' % [s + '.F90' for s in self.schemes], 'DEFAULT_BUILD_DIR = "build"',
             'SUITES_DIR = "."', 'OPTIONAL_ARGUMENTS = {}', 'CAPS_DIR = "{build_dir}"', 'STATIC_API_DIR = "{build_dir}"',
             'METADATA_HTML_OUTPUT_DIR = "{build_dir}"', 'HTML_VARTABLE_FILE = "{build_dir}/vars.html"', 'LATEX_VARTABLE_FILE = "{build_dir}/vars.tex"']
        for n in ('TYPEDEFS', 'SCHEMES', 'CAPS'):
            o += ['%s_%s = "{build_dir}/CCPP_%s.%s"' % (n, k, n, e) for k, e in (('MAKEFILE', 'mk'), ('CMAKEFILE', 'cmake'), ('SOURCEFILE', 'sh'))]
        o += ['STATIC_API_CMAKEFILE = "{build_dir}/CCPP_API.cmake"', 'STATIC_API_SOURCEFILE = "{build_dir}/CCPP_API.sh"']
        return o

    KINDS = ['module ccpp_kinds', '', '!! \\section arg_table_ccpp_kinds', '!! \\htmlinclude ccpp_kinds.html', '!!',
             'use iso_fortran_env, only: kind_phys => real64', 'implicit none', 'public :: kind_phys', 'end module ccpp_kinds']
    KMETA = ['[ccpp-table-properties]', '  name = ccpp_kinds', '  type = module', '  dependencies =', '[ccpp-arg-table]', '  name = ccpp_kinds', '  type = module',
             '[ kind_phys ]', '  standard_name = kind_phys', '  long_name = kind', '  units = none', '  dimensions = ()', '  type = integer']

    def emit(self, d):
        os.makedirs(os.path.join(d, 'build'), exist_ok=True)
        files = {'mpi_f08.F90': ['module mpi_f08', 'implicit none', 'type :: MPI_Comm', 'integer :: mpi_val', 'end type MPI_Comm', 'end module mpi_f08'],
                 'ccpp_kinds.F90': self.KINDS, 'ccpp_kinds.meta': self.KMETA, 'data.F90': self.hostf90(), 'data.meta': self.hostmeta(),
                 'ccpp_prebuild_config.py': self.config()}
        for s in self.schemes.values():
            files[s.name + '.F90'] = self.schemef90(s)
            files[s.name + '.meta'] = self.schememeta(s)
        for su in self.suites:
            files['suite_%s.xml' % su.name] = self.xml(su)
        for n, l in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write('\n'.join(l) + '\n')
        return files

    def cmd(self, py, scripts):
        return [py, os.path.join(scripts, 'ccpp_prebuild.py'), '--config=ccpp_prebuild_config.py', '--builddir=build',
                '--suites=' + ','.join('suite_' + s.name for s in self.suites)] + self.flags
