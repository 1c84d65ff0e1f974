"""P31: the generated documentation lists exactly the variables, with their attributes as written."""
import os
import re
import subprocess

from vt.pysym.check import Harness, module, outcome, main as pmain
from vt.pysym.files import files
from vt.pysym.gen import Log
from vt.pysym.sym import text, mk, chs, ask, streq, concretize
from vt.pysym.grammar import conj, disj, neg
from vt.runner import REPO
from checks.P13 import env_

ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', '#x27': "'", '#39': "'", 'apos': "'"}
TEX = {'textasciicircum': '^', 'textasciitilde': '~', 'textbackslash': '\\'}
DOC = 'aB1<>&"\'{}%_#$^~\\ .'


def free():
    return mk(chs(text('l', 1, DOC)) + chs(text('m', 1, 'a&{_\\')))


class Bad(Exception):
    pass


def isin(c, s):
    return c in s if isinstance(c, str) else ask(disj(*[streq(mk([c]), x) for x in s]))


def html_text(t):
    """The text a browser shows for the contents of a cell."""
    out, ch, i = [], chs(t), 0
    while i < len(ch):
        c = ch[i]
        if isin(c, '<'):
            raise Bad('markup in a cell')
        if isin(c, '&'):
            m = re.match(r'([#\w]+);', ''.join(x if isinstance(x, str) else '!' for x in ch[i + 1:i + 8]))
            if not m or m.group(1) not in ENT:
                raise Bad('& in a cell')
            out.append(ENT[m.group(1)])
            i += m.end()
        else:
            out.append(c)
        i += 1
    return mk(out).strip()


def rows(t):
    """[[cell text]] of an HTML table."""
    out, pos = [], 0
    while True:
        a = t.find('<tr>', pos)
        if a < 0:
            return out
        b = t.find('</tr>', a)
        row, p = [], a + 4
        while True:
            c = min([x for x in (t.find('<td', p), t.find('<th', p)) if x >= 0] or [-1])
            if c < 0 or c > b:
                break
            d = t.find('>', c)
            e = t.find('</t', d)
            row.append(html_text(t[d + 1:e]))
            p = e + 4
        out.append(row)
        pos = b


def tex_text(t):
    """The text LaTeX prints."""
    out, ch, i = [], chs(t), 0
    while i < len(ch):
        c = ch[i]
        if isin(c, '\\'):
            rest = ''.join(x if isinstance(x, str) else '!' for x in ch[i + 1:])
            m = re.match(r'(text\w+)\{\}', rest)
            if m and m.group(1) in TEX:
                out.append(TEX[m.group(1)])
                i += m.end()
            elif rest[:1] and rest[0] in '%_&#${}':
                out.append(rest[0])
                i += 1
            else:
                raise Bad('command in a text')
        elif isin(c, '%_&#${}^~'):
            raise Bad('special character in a text')
        else:
            out.append(c)
        i += 1
    return mk(out).strip()


def eqs(a, b):
    return streq(mk(chs(a)).strip(), mk(chs(b)).strip())


class Tables(Harness):
    """metadata2html: a page for each table, a row for each variable."""
    functions = ('convert_to_html', 'MetadataSection.to_html', 'parse_metadata_file')
    bounds = ('one to three tables (module, derived type, scheme with two entry points) of one to three variables; two characters of a description, of a local name and one of a standard name are '
              'free; ranks 0-2, four types, kinds, intents')
    budget = 500

    def cases(self, tier):
        return [dict(what=w, tables=t) for w in ('long', 'names', 'attributes') for t in ('module', 'scheme', 'all')]

    def inputs(self, case, eng):
        w = case['what']
        return dict(long=free() if w == 'long' else 'some', name=text('n', 2, 'aB9_') if w == 'names' else 'zz', std=text('s', 1, 'ab9') if w == 'names' else 'z',
                    typ=eng.pick(['real', 'integer', 'logical', 'character']) if w == 'attributes' else 'real', rank=eng.choose(3) if w == 'attributes' else 1,
                    intent=eng.pick(['in', 'out', 'inout']) if w == 'attributes' else 'in', order=eng.choose(3))

    def agree(self, case, inp):
        j = lambda *p: mk([c for x in p for c in chs(x)])
        dims = ['dim_a', '0:dim_b'][:inp['rank']]
        kind = {'real': 'kind_b', 'integer': None, 'logical': None, 'character': 'len=*'}[inp['typ']]
        mine = dict(local_name=j('q', inp['name']), standard_name=j('std_', inp['std']), long_name=j('the ', inp['long'], ' value'), units='m s-1', type=inp['typ'], dimensions=dims, kind=kind)
        plain = [dict(local_name='plain', standard_name='other_name', long_name='Other', units='1', type='integer', dimensions=[], kind=None),
                 dict(local_name='ps', standard_name='other_more', long_name=None, units='Pa', type='real', dimensions=['dim_a'], kind='kind_a')]
        tabs = {'module': [('md', 'module', ['md'])], 'scheme': [('sc', 'scheme', ['sc_run', 'sc_init'])],
                'all': [('ty', 'ddt', ['ty']), ('md', 'module', ['md']), ('sc', 'scheme', ['sc_run'])]}[case['tables']]
        lines, pages = [], {}
        for t, ty, secs in tabs:
            lines += ['[ccpp-table-properties]', '  name = ' + t, '  type = ' + ty]
            for s in secs:
                vs = list(plain)
                vs.insert(inp['order'], mine)
                lines += ['[ccpp-arg-table]', '  name = ' + s, '  type = ' + ty]
                pages[s] = []
                for v in vs:
                    v = dict(v, intent=inp['intent'] if ty == 'scheme' else None)
                    lines.append(j('[ ', v['local_name'], ' ]'))
                    for k in ('standard_name', 'long_name', 'units', 'type', 'kind', 'intent'):
                        if v[k] is not None:
                            lines.append(j('  %s = ' % k, v[k]))
                    lines.append('  dimensions = (%s)' % ','.join(v['dimensions']))
                    pages[s].append(v)
        m, mt = module('metadata2html'), module('metadata_table')
        real = os.path.isfile
        os.path.isfile = lambda p: p == 'x.meta' or real(p)
        try:
            with files([m, mt], {'x.meta': lines}) as f:
                o = outcome(m.convert_to_html, 'x.meta', 'out', Log(), env_())
        finally:
            os.path.isfile = real
        label = '%s, %s' % (case['what'], case['tables'])
        if not o.ok:
            return [(False, '%s: %s' % (label, o.exc))]
        got = {os.path.basename(n)[:-5]: x.text() for n, x in f.out.items()}
        out = [(set(got) == set(pages), '%s: pages' % label)]
        for s, vs in pages.items():
            try:
                r = rows(got.get(s, ''))
            except Bad as e:
                out.append((False, '%s: %s' % (label, e)))
                continue
            out.append((len(r) == len(vs) + 1 and len(set(len(x) for x in r)) == 1, '%s: rows' % label))
            if len(r) != len(vs) + 1:
                continue
            head = [concretize(x) for x in r[0]]
            for row, v in zip(r[1:], vs):
                cell = dict(zip(head, row))
                for k in ('local_name', 'standard_name', 'long_name', 'units', 'type', 'kind', 'intent', 'dimensions'):
                    if k not in cell:
                        out.append((False, '%s: no column %s' % (label, k)))
                    elif k == 'dimensions':
                        d = [x.strip() for x in concretize(cell[k]).strip()[1:-1].split(',')] if v[k] else [x for x in [concretize(cell[k]).strip('() ')] if x]
                        d = [x[len('ccpp_constant_one:'):] if x.startswith('ccpp_constant_one:') else x for x in d]
                        out.append((d == v[k], '%s: dimensions' % label))
                    elif v[k] is not None:
                        out.append((eqs(cell[k].lower() if k == 'local_name' else cell[k], v[k].lower() if k == 'local_name' else v[k]), '%s: %s' % (label, k)))
                    elif k == 'intent':
                        out.append((not any(ask(eqs(cell[k], x)) for x in ('in', 'out', 'inout')), '%s: no intent' % label))
        return out


def container(*a):
    return module('common').encode_container(*a)


SITES = (('md',), ('md_b', 'ty_a'), ('types_mod', 'typ_b'))
USERS = (('sch_a', 'sch_a', 'sch_a_run'), ('sch_a', 'sch_a', 'sch_a_init'), ('schb_mod', 'schb', 'schb_run'))


def var(std, long, units, typ, kind, rank, local, cont, intent=None):
    m = module('mkcap')
    return m.Var(standard_name=std, long_name=long, units=units, local_name=local, type=typ, dimensions=['d%d' % i for i in range(rank)], container=cont, kind=kind, intent=intent,
                 active='T', optional='F')


class Vars(Harness):
    """prebuild: the list of the host's variables (HTML), of all variables (LaTeX)."""
    budget = 500
    functions = ('metadata_to_html', 'metadata_to_latex', 'escape_tex', 'decode_container')
    bounds = ('one to three variables with symbolic characters in a standard name (order!), a description and a local name; provided by a module or type, requested by none to three entry points '
              'of two schemes, or both; two types, with and without kind, rank 0-2')

    def cases(self, tier):
        return [dict(doc=d, n=n, what=w) for d in ('html', 'latex') for n in (1, 2, 3) for w in ('long', 'names', 'attributes') if tier == 'thorough' or n < 3 or w == 'names']

    def inputs(self, case, eng):
        w = case['what']
        d = dict(long=free() if w == 'long' else 'some', std=text('s', 2, 'abz9_') if w == 'names' else 'mm', name=text('n', 1, 'aB%(:_') if w == 'names' else 'zz',
                 typ=eng.pick(['real', 'integer', 'ty_a']) if w == 'attributes' else 'real', rank=eng.choose(3) if w == 'attributes' else 1, site=eng.choose(3))
        if case['doc'] == 'latex':
            d['uses'] = eng.pick([[], [0], [0, 1], [2, 0], [1, 2, 0]])
            d['given'] = eng.choose(2) if d['uses'] else 1
            d['other'] = eng.choose(2)
        return d

    def agree(self, case, inp):
        m = module('mkdoc')
        j = lambda *p: mk([c for x in p for c in chs(x)])
        kind = 'kind_phys' if inp['typ'] == 'real' else ''
        mine = dict(std=concretize(j('q', inp['std'])), long=j('the ', inp['long'], ' value'), units='kg m-2', typ=inp['typ'], kind=kind, rank=inp['rank'], local=j('loc', inp['name']))
        rest = [dict(std='qa_other', long='Other thing', units='1', typ='integer', kind='', rank=0, local='oth'), dict(std='zlast', long='Last 5%', units='percent', typ='real', kind='kind_phys', rank=2, local='g%last')]
        vs = ([mine] + rest)[:case['n']]
        if len(set(v['std'] for v in vs)) < len(vs):
            return [(True, 'two variables of one name')]
        where, wants = {}, {}
        for i, v in enumerate(vs):
            given = inp.get('given', 1) if i == 0 else not (inp.get('other') and i == 1)
            uses = inp.get('uses', []) if i == 0 else [] if given and i == 1 else [2]
            v['site'] = SITES[(inp['site'] + i) % 3] if given else None
            v['users'] = [USERS[u] for u in uses]
            if given:
                where[v['std']] = [var(v['std'], v['long'], v['units'], v['typ'], v['kind'], v['rank'], v['local'], container(*v['site']))]
            if uses:
                wants[v['std']] = [var(v['std'], v['long'], v['units'], v['typ'], v['kind'], v['rank'], 'x', container(*u), 'in') for u in v['users']]
        # (in another order than that of the names)
        rev = lambda d: {k: d[k] for k in sorted(d, reverse=bool(inp['site'] == 1))}
        real = os.makedirs
        os.makedirs = lambda *a, **k: None
        try:
            with files([m], {}) as f:
                if case['doc'] == 'html':
                    o = outcome(m.metadata_to_html, rev(where), 'HOST', 'x/doc')
                else:
                    o = outcome(m.metadata_to_latex, rev(where), rev(wants), 'HOST', 'x/doc')
        finally:
            os.makedirs = real
        label = '%s, %s, %d' % (case['doc'], case['what'], case['n'])
        if not o.ok or not o.val:
            return [(False, '%s: %s' % (label, o))]
        t = f.out['x/doc'].text()
        try:
            return self.html(t, [v for v in vs if v['std'] in where], label) if case['doc'] == 'html' else self.latex(t, vs, label)
        except Bad as e:
            return [(False, '%s: %s' % (label, e))]

    def html(self, t, vs, label):
        r = rows(t)
        vs = sorted(vs, key=lambda v: v['std'])
        out = [(len(r) == len(vs) + 1, '%s: rows' % label)]
        if len(r) != len(vs) + 1:
            return out
        head = [concretize(x).strip() for x in r[0]]
        for row, v in zip(r[1:], vs):
            c = dict(zip(head, row))
            want = dict(standard_name=v['std'], long_name=v['long'], units=v['units'], rank=str(v['rank']), type=v['typ'], kind=v['kind'])
            want['HOST name'] = v['local']
            for k, w in want.items():
                out.append((k in c and eqs(c[k], w), '%s: %s' % (label, k)))
            src = concretize(c.get('source', '')).split()
            out.append((src == ['MODULE', v['site'][0]] + (['TYPE', v['site'][1]] if len(v['site']) > 1 else []), '%s: source' % label))
        return out

    def latex(self, t, vs, label):
        out, vs = [], sorted(vs, key=lambda v: v['std'])
        i = t.find('\\begin{description}')
        # the list of names
        names, pos = [], 0
        while True:
            a = t.find('\\hyperlink{', pos)
            if a < 0:
                break
            b = t.find('\\execout{', a)
            names.append((t[a + 11:t.find('}', a)], tex_text(t[b + 9:t.find('}', b)])))
            pos = b
        out.append((len(names) == len(vs) and conj(*[conj(eqs(a, v['std']), eqs(b, v['std'])) for (a, b), v in zip(names, vs)]), '%s: list of names' % label))
        items, pos = [], i
        while True:
            a = t.find('\\hypertarget{', pos)
            if a < 0:
                break
            e = t.find('\\end{tabular}', a)
            b = t.find('\\exec{', a)
            d = dict(ref=t[a + 13:t.find('}', a)], standard_name=tex_text(t[b + 6:t.find('}', b)]))
            for line in t[b:e].split('\n'):
                p = line.find(' & ')
                if p < 0 or not ask(line.startswith('\\execout{')):
                    continue
                k = str(line[9:p]).replace('\\', '').strip('} ')
                v = line[p + 3:line.rfind('} \\\\')].strip()
                d[k] = v[9:] if ask(v.startswith('\\execout{')) else v
            items.append(d)
            pos = e
        out.append((len(items) == len(vs), '%s: items' % label))
        if len(items) != len(vs):
            return out
        for d, v in zip(items, vs):
            out.append((conj(eqs(d['ref'], v['std']), eqs(d['standard_name'], v['std'])), '%s: name of an item' % label))
            want = dict(long_name=v['long'], units=v['units'], rank=str(v['rank']), type=v['typ'], kind=v['kind'], local_name=v['local'] if v['site'] else 'MISSING')
            for k, w in want.items():
                out.append((k in d and eqs(tex_text(d[k]), w), '%s: %s' % (label, k)))
            src = concretize(tex_text(d.get('source', ''))).split()
            out.append((src == (['MODULE', v['site'][0]] + (['TYPE', v['site'][1]] if len(v['site']) > 1 else []) if v['site'] else ['MISSING']), '%s: source' % label))
            req = concretize(d.get('requested', '')).strip()
            m = re.match(r'\\vtop\{(.*)\}$', req)
            req = [concretize(tex_text(x.strip())) for x in (m.group(1) if m else req).split('\\newline')]
            out.append((req == (sorted(u[2] for u in v['users']) or ['NOT REQUESTED']), '%s: requested' % label))
        return out


class Start(Harness):
    """The tool starts outside of a development environment (one concrete run; nothing symbolic)."""
    functions = ('metadata2html',)
    bounds = 'metadata2html.py --help without PYTHONPATH'

    def agree(self, case, inp):
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        p = subprocess.run(['python3', '-B', os.path.join(REPO, 'scripts', 'metadata2html.py'), '--help'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return [(p.returncode == 0, 'metadata2html.py does not start: %s' % p.stdout.strip().split('\n')[-1])]


HARNESSES = dict(tables=Tables(), vars=Vars(), start=Start())


def main(tier, only=None):
    return pmain('P31', tier, 'model_checking', ['an own reader of HTML entities and LaTeX escapes stands for browser and LaTeX; their page layout is outside',
                                                  'files and directories are stand-ins'], [], ['see the harnesses'], only)
