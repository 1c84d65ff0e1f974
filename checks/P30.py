"""P30: ccpp_track_variables reports exactly the schemes of a suite that use a variable."""
import os
import re

from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.files import files
from vt.pysym.gen import Log
from vt.pysym.sym import text, mk, chs, ask, same
from vt.pysym.grammar import conj, disj, neg

FUNCS = ('track_variables', 'create_var_graph', 'create_metadata_filename_dict', 'parse_suite', 'find_scheme_names', 'mkstatic.Suite.parse', 'parse_metadata_file')


class Glob:
    def __init__(self, names):
        self.names = names

    def glob(self, *a, **k):
        return list(self.names)


def track(meta, order, sdf, var):
    """(outcome, printed lines) of the tool's main routine."""
    m, ms, mt = module('ccpp_track_variables'), module('mkstatic'), module('metadata_table')
    real, et = os.path.exists, ms.ET.parse
    lines = []
    stand = dict(glob=Glob(order), import_config=lambda *a: (True, dict(variable_definition_files=[], typedefs_new_metadata={})),
                 gather_variable_definitions=lambda *a: (True, {}, {}), setup_logging=lambda *a: Log(), print=lambda *a, **k: lines.append(a[0] if a else ''))
    missing = object()
    saved = {n: m.__dict__.get(n, missing) for n in stand}
    tree = ms.ET.ElementTree(ms.ET.fromstring('\n'.join(sdf)))
    try:
        m.__dict__.update(stand)
        os.path.exists = lambda p: p.endswith('suite_ts.xml') or real(p)
        ms.ET.parse = lambda *a, **k: tree
        with files([m, mt], meta):
            o = outcome(m.track_variables, 'suite_ts.xml', 'path', 'config.py', var, False)
    finally:
        os.path.exists, ms.ET.parse = real, et
        for n, v in saved.items():
            if v is missing:
                m.__dict__.pop(n, None)
            else:
                m.__dict__[n] = v
    out = []
    for x in lines:
        out += mk(chs(x)).split('\n')
    return o, out


def section(name, args):
    """args: (local name, standard name, intent)."""
    out = ['[ccpp-arg-table]', '  name = ' + name, '  type = scheme']
    for n, s, i in args:
        out += ['[ %s ]' % n, mk(list('  standard_name = ') + chs(s)), '  units = 1', '  dimensions = ()', '  type = real', '  intent = ' + i]
    return out


def table(name, secs, deps=None, sep=()):
    out = ['[ccpp-table-properties]', '  name = ' + name, '  type = scheme'] + (['  dependencies = ' + deps] if deps else [])
    for n, args in secs:
        out += list(sep) + section(n, args)
    return out


def suite(groups):
    """groups: [(name, [(loop, [scheme])])]."""
    out = ['<suite name="ts" version="1">']
    for g, subs in groups:
        out.append('<group name="%s">' % g)
        for loop, schemes in subs:
            out.append('<subcycle loop="%d">' % loop)
            out += ['<scheme>%s</scheme>' % s for s in schemes]
            out.append('</subcycle>')
        out.append('</group>')
    return out + ['</suite>']


def expected(groups, metas, var):
    """[(group, [(section, intent)])] by the names of the arguments; metas: scheme -> [(section, [(local, std, intent)])]."""
    out = []
    for g, subs in groups:
        here = []
        for loop, schemes in subs:
            for _ in range(loop):
                for s in schemes:
                    for sec, args in metas[s]:
                        for _, std, i in args:
                            if ask(same(std, var)):
                                here.append((sec, i))
                                break
        if here:
            out.append((g, here))
    return out


def report(lines):
    """(groups as in expected, {section: text of the partial matches})."""
    out, part = [], {}
    for x in lines:
        t = x.strip()
        if ask(t.startswith('In group ')):
            out.append((str(t[len('In group '):]).strip(), []))
        elif ask(t.startswith('In ')) and ask(t.find(' found variable(s) ') >= 0):
            k = t.find(' found variable(s) ')
            part[str(t[3:k])] = t[k + len(' found variable(s) '):]
        elif out:
            m = re.match(r'(\w+) \(intent (\w+)\)$', str(t))
            out[-1][1].append((m.group(1), m.group(2)) if m else (str(t), None))
    return out, part


class Names(Harness):
    """Standard names equal to, holding or held in the queried one."""
    functions = FUNCS
    bounds = ('one scheme with one or two arguments whose standard names have two to four characters, queried by names of one to four characters (letters a and b, underscore), any two intents; '
              'in one entry point, or one argument in each of two')
    budget = 500

    def cases(self, tier):
        ls = (2, 3) if tier == 'quick' else (2, 3, 4)
        return [dict(a=a, b=b, q=q, two=two) for a in ls for b in ls for q in (1,) + ls for two in (False, True) if a >= b or two]

    def inputs(self, case, eng):
        w = lambda n, k: mk([*chs(text(n, 1, 'ab')), *chs(text(n + 'r', k - 1, 'ab'))])
        return dict(a=w('a', case['a']), b=w('b', case['b']), q=w('q', case['q']), ia=eng.pick(['in', 'out', 'inout']), ib=eng.pick(['in', 'out']))

    def agree(self, case, inp):
        A, B = ('x', inp['a'], inp['ia']), ('y', inp['b'], inp['ib'])
        if not case['two'] and ask(same(inp['a'], inp['b'])):
            return [(True, 'two arguments of one name')]
        secs = [('s_init', [A]), ('s_run', [B])] if case['two'] else [('s_run', [A, B])]
        groups = [('g', [(1, ['s'])])]
        o, lines = track({'p/s.meta': table('s', secs)}, ['p/s.meta'], suite(groups), inp['q'])
        label = 'names of %d, %d, queried %d' % (case['a'], case['b'], case['q'])
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        want = expected(groups, {'s': secs}, inp['q'])
        got, part = report(lines)
        out = [(got == want, '%s: report' % label)]
        if want:
            out.append((part == {}, '%s: partial matches besides an exact one' % label))
        else:
            hits = {}
            for sec, args in secs:
                for _, std, _ in args:
                    if ask(std.find(inp['q']) >= 0):
                        hits.setdefault(sec, []).append(std)
            out.append((set(part) == set(hits), '%s: entry points with partial matches' % label))
            if set(part) == set(hits):
                out.append((conj(*[same(part[s], mk(sum([(list(', ') if i else []) + ["'"] + chs(x) + ["'"] for i, x in enumerate(hits[s])], ['[']) + [']'])) for s in hits]), '%s: partial matches' % label))
        return out


class Calls(Harness):
    """Structure of the suite."""
    functions = FUNCS
    bounds = ('suites of one or two groups with one or two subcycles of one to three iterations and one or two of three schemes (also repeated); each entry point (initialisation, run, '
              'timestep finalisation) uses the variable as in, inout or not at all')
    budget = 700

    SHAPES = [[[1]], [[2]], [[1, 1]], [[1], [1]], [[2], [1]], [[1, 2]]]

    def cases(self, tier):
        return [dict(shape=s, use=u) for s in self.SHAPES + ([[[2, 1], [2]]] if tier == 'thorough' else []) for u in range(3)]

    def inputs(self, case, eng):
        g = []
        for subs in case['shape']:
            g.append([(1 + eng.choose(3 if len(subs) == 1 or tuple(subs) == (1, 1) else 2), [eng.pick('abc'[:3 if n == 1 else 2]) for _ in range(n)]) for n in subs])
        return dict(groups=g, v=text('v', 2, 'xy'), q=text('q', 2, 'xy'))

    USES = ((('in',), (None,), ('inout', 'out', None)), ((None,), ('inout',), (None, 'in', 'out')), (('out', None), ('in', 'in'), ('inout',)))

    def agree(self, case, inp):
        metas = {}
        for s, us in zip('abc', self.USES[case['use']]):
            metas['s' + s] = [('s%s_%s' % (s, ph), [('k', 'call_count', 'in')] + ([('f', mk(list('f') + chs(inp['v'])), u)] if u else []))
                              for ph, u in zip(('run',) if len(us) == 1 else ('init', 'run', 'timestep_finalize'), us)]
        groups = [('g%d' % i, [(int(loop), ['s' + x for x in schemes]) for loop, schemes in subs]) for i, subs in enumerate(inp['groups'])]
        var = mk(list('f') + chs(inp['q']))
        meta = {'p/ab.meta': table('sa', metas['sa']) + ['', '#####'] + table('sb', metas['sb']), 'p/c.meta': table('sc', metas['sc'])}
        o, lines = track(meta, ['p/c.meta', 'p/ab.meta'], suite(groups), var)
        label = 'shape %s' % case['shape']
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        got, _ = report(lines)
        return [(got == expected(groups, metas, var), '%s: report' % label)]


class Files(Harness):
    """Layout of the metadata files."""
    functions = FUNCS
    bounds = ('three schemes in one to three files in either order, with dependencies, comments or blank lines between the headers, other tables with the same variable (of a type, a module '
              'or a scheme outside of the suite) in the same files; a scheme without metadata')
    budget = 500

    def cases(self, tier):
        return ['one', 'two', 'three', 'missing']

    def inputs(self, case, eng):
        return dict(order=eng.choose(2), deps=eng.choose(3), sep=eng.choose(3), other=eng.choose(4), v=text('v', 1, 'xy'), q=text('q', 1, 'xy'))

    def agree(self, case, inp):
        std, var = mk(list('f') + chs(inp['v'])), mk(list('f') + chs(inp['q']))
        sep = ((), ('', '########################################################################'), ('# a comment', '', '#', '; another'))[inp['sep']]
        deps = (None, 'a.F90', '../x/machine.F, b.F90,name.F')[inp['deps']]
        metas = {'one': [('one_run', [('f', std, 'in')])], 'one_more': [('one_more_run', [('f', std, 'inout'), ('g', 'fz', 'in')]), ('one_more_finalize', [('g', 'fz', 'in')])],
                 'three': [('three_init', [('f', std, 'out')])]}
        tabs = {s: table(s, secs, deps, sep) for s, secs in metas.items()}
        others = [[], table('unused', [('unused_run', [('f', std, 'in')])], deps, sep), [x.replace('scheme', 'ddt') if isinstance(x, str) else x for x in table('ty', [('ty', [])])] +
                  ['[ f ]', mk(list('  standard_name = ') + chs(std)), '  units = 1', '  dimensions = ()', '  type = real'],
                  [x.replace('scheme', 'module') if isinstance(x, str) else x for x in table('md', [('md', [])])] +
                  ['[ f ]', mk(list('  standard_name = ') + chs(std)), '  units = 1', '  dimensions = ()', '  type = real']][inp['other']]
        names = ['three', 'one_more', 'one'] if inp['order'] else ['one', 'one_more', 'three']
        if case == 'missing':
            meta = {'p/1.meta': others + list(sep) + tabs['one'] + list(sep) + tabs['three']}
        elif case == 'one':
            meta = {'p/1.meta': sum([tabs[n] + list(sep) for n in names[:2]], []) + others + list(sep) + tabs[names[2]]}
        elif case == 'two':
            meta = {'p/1.meta': others + tabs[names[0]], 'p/2.meta': tabs[names[1]] + list(sep) + tabs[names[2]]}
        else:
            meta = {'p/%d.meta' % i: tabs[n] + (others if i == 1 else []) for i, n in enumerate(names)}
        groups = [('g', [(1, ['one', 'three', 'one_more'])])]
        o, lines = track(meta, sorted(meta, reverse=bool(inp['order'])), suite(groups), var)
        label = '%s, other tables %d' % (case, inp['other'])
        got, _ = report(lines)
        if case == 'missing':
            return [(not o.ok and not got, '%s: a scheme without metadata must stop the tool' % label)]
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        return [(got == expected(groups, metas, var), '%s: report' % label)]


HARNESSES = dict(names=Names(), calls=Calls(), files=Files())


def main(tier, only=None):
    return pmain('P30', tier, 'model_checking', ["the host's configuration and metadata (read but not used by the report) are stand-ins"], [], ['see the harnesses'], only)
