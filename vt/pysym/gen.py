"""Run the analysis of capgen on a Spec whose metadata holds symbolic text.

A metadata line may hold <name> marks; sub[name] (a SymStr or str) takes their place.  parse_host_model_files, parse_scheme_files and
API are the real functions; only the comparison with Fortran sources is left out (there are none).
"""
import logging
import os
import re
import shutil
import tempfile
from .check import module, NATIVE
from .files import files
from .sym import mk, chs
from ..runner import REPO

MARK = re.compile(r'<(\w+)>')
CONST = os.path.join(REPO, 'src', 'ccpp_constituent_prop_mod.meta')


def subst(line, sub):
    if '<' not in line:
        return line
    out, pos = [], 0
    for m in MARK.finditer(line):
        if m.group(1) in sub:
            out += list(line[pos:m.start()]) + chs(sub[m.group(1)])
            pos = m.end()
    return mk(out + list(line[pos:]))


class Log(logging.Logger):
    """Swallows messages (formatting symbolic text is not the point)."""
    def __init__(self):
        super().__init__('vt')

    def _log(self, *a, **k):
        pass

    debug = info = warning = error = critical = exception = log = _log

    def getEffectiveLevel(self):
        return logging.ERROR


class Generated:
    def __init__(self, host, headers, tables, api, env):
        self.host, self.headers, self.tables, self.api, self.env = host, headers, tables, api, env

    def suite(self, name):
        return [s for s in self.api.suites if s.name == name][0]


def generate(spec, sub, kinds=('kind_phys=REAL64', 'kind_b=REAL32'), then=None, debug=False):
    """Analyse spec with its marks replaced; returns Generated (or raises what the generator raises).
    then(Generated, dir): called before the scratch directory goes."""
    cg = module('ccpp_capgen')
    mt = module('metadata_table')
    cs = module('ccpp_suite')
    if '_vt_ddts' not in cg.__dict__:
        cg._vt_ddts = True
        for n in cg._CCPP_FRAMEWORK_DDT_TYPES:
            module('parse_tools').register_fortran_ddt_name(n)
    d = tempfile.mkdtemp(prefix='vtgen')
    saved = {n: cg.__dict__[n] for n in ('find_associated_fortran_file', 'parse_fortran_file', 'check_fortran_against_metadata')}
    cg.find_associated_fortran_file = lambda f: f[:-5] + '.F90'
    cg.parse_fortran_file = lambda f, env: ([], [])
    cg.check_fortran_against_metadata = lambda *a, **k: None
    try:
        table = {}
        for m in spec.mods:
            meta = []
            for x in m.ddts:
                meta += spec.table(x.name, 'ddt', [(x.name, x.vars)])
            if m.vars is not None:
                meta += spec.table(m.name, 'module', [(m.name, m.vars)])
            table[m.name + '.meta'] = meta
        table[spec.host + '.meta'] = spec.table(spec.host, 'host', [(spec.host, spec.host_vars)])
        for n in spec.scheme_order:
            s = spec.schemes[n]
            meta = []
            for x in s.ddts:
                meta += spec.table(x.name, 'ddt', [(x.name, x.vars)])
            table[s.module + '.meta'] = meta + spec.table(s.name, 'scheme', [(s.proc(p), s.args(p)) for p in s.entries])
        table = {os.path.join(d, k): [subst(x, sub) for x in v] for k, v in table.items()}
        sdfs = []
        for su in spec.suites:
            fn = os.path.join(d, 'suite_%s.xml' % su.name)
            with open(fn, 'w') as f:
                f.write('\n'.join(spec.xml(su)) + '\n')
            sdfs.append(fn)
        types = sorted({u for s in spec.schemes.values() for u in s.uses if u in [m.name for m in spec.mods]})
        hf = [os.path.join(d, n) for n in spec.host_names()] + [CONST]
        sf = [CONST] + [os.path.join(d, u + '.meta') for u in types] + [os.path.join(d, spec.schemes[n].module + '.meta') for n in spec.scheme_order]
        env = module('framework_env').CCPPFrameworkEnv(Log(), ndict={'host_files': '', 'scheme_files': '', 'suites': '', 'host_name': spec.host, 'debug': debug},
                                                       kind_types=list(kinds))
        with files([mt], table):
            host = cg.parse_host_model_files(hf, spec.host, env)
            headers, tables = cg.parse_scheme_files(sf, env)
        api = cs.API(sdfs, host, headers, env)
        g = Generated(host, headers, tables, api, env)
        return then(g, d) if then else g
    finally:
        cg.__dict__.update(saved)
        shutil.rmtree(d, ignore_errors=True)
