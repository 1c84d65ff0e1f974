#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FORT = "symbolic execution (own Fortran-to-z3 encoder) of "
PY = "dynamic symbolic execution over z3 of "
CH = {
 'P19': ('model_checking', FORT + "src/ccpp_constituent_prop_mod.F90 (and the hash table below it) with symbolic names, properties, flags and fields", "bounded: up to 4 constituents of one-letter names with collisions, arrays up to 2x2x3, listed operation histories"),
 'P27': ('model_checking', FORT + "the host and suite caps that ccpp_capgen writes now for suites with constituents, together with src/ccpp_constituent_prop_mod.F90, with symbolic fields, names, flags and error codes",
         "bounded: 7 suite layouts, up to 7 constituents, 2 columns, listed call histories; every counterexample is replayed in the compiled caps"),
 'P28': ('model_checking', PY + "whole runs of ccpp_capgen and ccpp_prebuild in which the order of every visit of a set and of every directory listing is symbolic",
         "bounded: the scenario library with dependencies added; one place (or all) reordered, reversed or rotated; the runs' outputs are compared byte for byte"),
 'P29': ('model_checking', PY + "the prototype metadata for sources with symbolic names and kinds is read back by an own reader and by capgen",
         "bounded: routines of up to 3 arguments besides the error arguments, one with symbolic name and kind characters; 14 declaration forms; up to two types, module data or three routines in one or two modules or files"),
 'P20': ('model_checking', FORT + "src/ccpp_hash_table.F90 with symbolic keys", "bounded: up to 5 keys of up to 5 (17) characters, tables of 1-8 buckets, listed operation sequences"),
}
NA = {}
import importlib.util
extra = os.path.join(V, 'tools', 'manifest_checks.py')
if os.path.exists(extra):
    spec = importlib.util.spec_from_file_location('mc', extra)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    CH.update(m.CH); NA.update(m.NA)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in CH:
        lev, tech, note = CH[i]
        checks.append(dict(property=i, quick_cmd="python3-vt run.py %s --tier quick" % i, thorough_cmd="python3-vt run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=lev, level_note=note))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in CH]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
