"""P22: prebuild caps pass each scheme the host data it asks for, converted both ways."""
from vt.capgen.check import Variant, main as cmain
from vt.prebuild import scenarios as S

FUNCS = ['generated ccpp_static_api.F90 (all stages)', 'generated ccpp_<suite>_cap.F90 and ccpp_<suite>_<group>_cap.F90 (all functions)', 'host data modules']
WHERE = 'vt/prebuild/scenarios.py'


def variants(n, mk):
    vs = [Variant('alloc')]
    if any(v.cond is not None for v in mk().allvars()):
        vs.append(Variant('unalloc', poison='none'))
    return vs


def main(tier, only=None):
    names = only or [n for n in S.REG if 'P22' in S.REG[n].reg['props']]
    return cmain('P22', tier, names, variants, makes=S.REG, functions=FUNCS, where=WHERE,
                 bounds=['blocks and chunks of 2 and 1 columns (thorough: also 1, 3 and 2), every stage of every suite once, by suite and by group, every block in the run stage'])
