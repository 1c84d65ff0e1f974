"""P16: preprocessor conditionals select the lines cpp keeps."""
import itertools
import os
import z3
from vt.pysym.check import Harness, module, outcome, main as pmain, mk
from vt.pysym.files import files
from vt.pysym.sym import same, chs, ask, char, text, to_int, is_in
from vt.engine import cur

DIG = '0123456789'


# ------------------------------------------------------------------ conditions
def show(e, sp):
    """cpp text of a condition."""
    b = ' ' if sp else ''
    k = e[0]
    if k == 'def':
        return 'defined(%s)' % e[1]
    if k == 'defs':
        return 'defined %s' % e[1]
    if k == 'name':
        return e[1]
    if k == 'int':
        return str(e[1])
    if k == 'cmp':
        return show(e[2], sp) + b + e[1] + b + show(e[3], sp)
    if k == 'not':
        return '!' + show(e[1], sp)
    if k == 'par':
        return '(' + b + show(e[1], sp) + b + ')'
    return (b + e[0] + b).join(show(x, sp) for x in e[1:])


def conds(names):
    """Representative conditions over two or three macros."""
    A, B, C = names
    n = lambda x: ('name', x)
    d = lambda x: ('def', x)
    s = lambda x: ('defs', x)
    p = lambda e: ('par', e)
    no = lambda e: ('not', e)
    c = lambda op, x, y: ('cmp', op, x, y)
    i = lambda v: ('int', v)
    out = [d(A), s(A), no(d(A)), no(s(A)), no(p(d(A))), p(s(A)), n(A), no(n(A)), no(p(n(A))), i(0), i(1), i(17), no(i(0)), no(i(3))]
    for op in ('==', '!=', '<', '<=', '>', '>='):
        out += [c(op, n(A), i(2)), p(c(op, i(7), n(A))), c(op, n(A), n(B)), no(p(c(op, n(A), i(0))))]
    for op in ('&&', '||'):
        o2 = '||' if op == '&&' else '&&'
        out += [(op, d(A), d(B)), (op, d(A), d(B), d(C)), (op, d(A), no(d(B))), (op, no(d(A)), d(B), no(d(C))), (op, no(s(A)), s(B)),
                (op, n(A), n(B)), (op, n(A), no(n(B)), d(C)), (op, c('==', n(A), i(1)), d(B)), (op, d(A), c('>', n(A), i(2))),
                (op, no(n(A)), c('!=', n(B), i(1)), d(C)), p((op, p((o2, d(A), d(B))), d(C))), (op, d(A), p((o2, d(B), no(d(C))))),
                no(p((op, d(A), d(B)))), (op, i(1), d(A)), (op, i(0), n(B), d(A)), (op, c('<', n(A), n(B)), c('>=', n(B), i(10)), d(C))]
    out += [('||', ('&&', d(A), d(B)), d(C)), ('||', d(A), ('&&', d(B), d(C))), ('||', ('&&', d(A), no(d(B))), ('&&', no(d(A)), d(B))),
            ('||', ('&&', n(A), c('==', n(B), i(2))), no(d(C))), ('&&', p(('||', n(A), n(B))), p(('||', no(n(A)), no(n(B)))))]
    return out


def used(e):
    """(names whose value is compared, all names)."""
    if e[0] in ('def', 'defs', 'name'):
        return set(), {e[1]}
    if e[0] == 'int':
        return set(), set()
    if e[0] == 'cmp':
        ns = {x[1] for x in e[2:] if x[0] == 'name'}
        return ns, ns
    a, b = set(), set()
    for x in e[1:]:
        u, v = used(x)
        a |= u
        b |= v
    return a, b


class Macros:
    """The definitions in force: name -> None (defined without value) or its integer value."""
    def __init__(self):
        self.v = {}

    def val(self, n):
        return self.v[n][0] if n in self.v else 0


def ev(e, m):
    """cpp's value of a condition, a z3 formula or bool."""
    k = e[0]
    if k in ('def', 'defs'):
        return e[1] in m.v
    if k == 'name':
        return _nz(m.val(e[1]))
    if k == 'int':
        return e[1] != 0
    if k == 'cmp':
        a, b = [m.val(x[1]) if x[0] == 'name' else x[1] for x in e[2:]]
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                '>=': lambda: a >= b}[e[1]]()
    if k == 'not':
        return _not(ev(e[1], m))
    if k == 'par':
        return ev(e[1], m)
    vs = [ev(x, m) for x in e[1:]]
    if k == '&&':
        if any(v is False for v in vs):
            return False
        vs = [v for v in vs if v is not True]
        return z3.And(*vs) if vs else True
    if any(v is True for v in vs):
        return True
    vs = [v for v in vs if v is not False]
    return z3.Or(*vs) if vs else False


def _nz(v):
    return v != 0


def _not(v):
    return (not v) if isinstance(v, bool) else z3.Not(v)


def number(t):
    """The integer a value text stands for: an int (concrete) or a z3 integer."""
    if t is None:
        return 1
    v = to_int(t)
    return v.e if hasattr(v, 'e') else int(v)


# ------------------------------------------------------------------ reading
NAME = 'vt_source.F90'


def read(lines, defs, more=()):
    PF = module('parse_fortran_file')
    real = os.path.exists
    table = {NAME: lines}
    for k, x in enumerate(more):
        table['vt_more%d.F90' % k] = x
    os.path.exists = lambda f: True if f in table else real(f)
    try:
        with files([PF], table):
            out = []
            for f in table:
                pobj = PF.read_file(f, preproc_defs=defs)
                out.append([pobj.peek_line(i) for i in range(len(table[f]))])
            return out
    finally:
        os.path.exists = real


def truth(v):
    return v if isinstance(v, bool) else cur().branch(v)


def cpp(prog, m):
    """The lines of prog cpp keeps: list of line or ''; forks on the conditions."""
    out, stack = [], []
    for ln in prog:
        t = ln[0]
        act = all(s[1] for s in stack)
        if t == 'code':
            out.append(ln[1] if act else '')
            continue
        out.append('')
        if t in ('if', 'ifdef', 'ifndef'):
            if not act:
                stack.append([True, False])
                continue
            v = truth(ev(ln[1], m)) if t == 'if' else ((ln[1] in m.v) == (t == 'ifdef'))
            stack.append([v, v])
        elif t in ('elif', 'else'):
            s = stack[-1]
            if s[0]:
                s[1] = False
            elif all(x[1] for x in stack[:-1]):
                s[0] = s[1] = t == 'else' or truth(ev(ln[1], m))
        elif t == 'endif':
            stack.pop()
        elif act and t == 'define':
            m.v[ln[1]] = (number(ln[2]),)
        elif act and t == 'undef':
            m.v.pop(ln[1], None)
    return out


def write(prog, style):
    """Source lines of a program; style varies blanks."""
    out = []
    h, sp, tail = [('#', ' ', ''), ('# ', '  ', ' '), ('#', ' ', ' ! note')][style]
    for ln in prog:
        t = ln[0]
        if t == 'code':
            out.append(ln[1])
        elif t in ('if', 'elif'):
            c = show(ln[1], style != 2)
            out.append(h + t + ('' if style == 2 and c[0] in '(!' else sp) + c)
        elif t in ('ifdef', 'ifndef', 'undef'):
            out.append(h + t + sp + ln[1] + tail)
        elif t == 'define':
            out.append(mk(list(h + t + sp + ln[1]) + ([' '] + chs(ln[2]) if ln[2] is not None else [])))
        else:
            out.append(h + t + tail)
    return out


def definitions(eng, names, must=()):
    """Symbolic definitions: each name absent, defined without value, or with a value of one or two digits."""
    defs = {}
    for n in names:
        how = eng.pick(['none', 'value', 'digits'] if n in must else ['absent', 'none', 'value', 'digits'])
        if how == 'absent':
            continue
        if how == 'none':
            defs[n] = None
        else:
            w = 1 if how == 'value' else 2
            t = text('v_' + n, w, DIG)
            if w == 2:
                eng.assume(chs(t)[0].cond('123456789'))
            defs[n] = t
    return defs


def macros(defs):
    m = Macros()
    for k, v in defs.items():
        m.v[k] = (number(v),)
    return m


def compare(o, want, label):
    if not o.ok:
        return [(False, '%s: rejected a well formed source (%s)' % (label, o.exc))]
    for got, w in zip(o.val, want):
        for a, b in zip(got, w):
            if len(a) != len(b) or not ask(same(a, b)):
                return [(False, '%s: a line is %s' % (label, 'dropped although cpp keeps it' if len(b) else 'kept although cpp drops it'))]
    return [(True, label)]


class Condition(Harness):
    functions = ['preprocess.parse_preproc_line', 'preprocess.preproc_item_value', 'preprocess.preproc_bool',
                 'preprocess.PreprocStack.process_line', 'preprocess.PreprocStack.process_if_line', 'parse_fortran_file.read_file']
    bounds = ('conditions: %d forms of definedness, negation, conjunctions and disjunctions of 2-3 operands and the six comparisons, in #if and '
              '#elif; each macro undefined, defined without a value or with any value 0..99; compared macros are defined' % len(conds('ABC')))

    def cases(self, tier):
        n = len(conds('ABC'))
        k = 12 if tier == 'quick' else 6
        return [list(range(i, n, k)) for i in range(k)]

    def inputs(self, case, eng):
        i = eng.pick(case)
        e = conds(('AA', 'B_2', 'FOO'))[i]
        cmp, names = used(e)
        return dict(cond=i, defs=definitions(eng, sorted(names), cmp), style=eng.pick([0, 1, 2]), elif_=eng.pick([False, True]))

    def agree(self, case, inp):
        e = conds(('AA', 'B_2', 'FOO'))[inp['cond']]
        prog = [('if', e), ('code', 'a = 1'), ('else',), ('code', 'b = 2'), ('endif',), ('code', 'c = 3')]
        if inp['elif_']:
            prog = [('ifdef', 'ZZZ'), ('code', 'z = 0'), ('elif', e)] + prog[1:]
        o = outcome(read, write(prog, inp['style']), dict(inp['defs']))
        return compare(o, [cpp(prog, macros(inp['defs']))], 'condition')


def shapes(depth, groups):
    """Skeletons of nested conditionals: lists of ('open'), ('elif'), ('else'), ('endif'), ('code')."""
    if groups == 0:
        return [[]]
    out = []
    for first in range(1, groups + 1):             # groups in the first conditional (itself included)
        rest = shapes(depth, groups - first)
        for one in conditional(depth, first):
            for r in rest:
                out.append(one + r)
    return out


def depth_of(s):
    d = m = 0
    for x in s:
        d += (x[0] == 'open') - (x[0] == 'endif')
        m = max(m, d)
    return m


def selection(g):
    """3: all; 'deep': three conditionals inside each other with at most one #elif."""
    if g != 'deep':
        return shapes(3, g)
    return [s for s in shapes(3, 3) if depth_of(s) == 3 and sum(x[0] == 'elif' for x in s) <= 1]


def conditional(depth, groups):
    if depth == 0:
        return []
    out = []
    for arms in (('elif', 'else'), ('else',), ('elif',), (), ('elif', 'elif', 'else')):
        n = 1 + len(arms)
        for split in itertools.product(range(groups), repeat=n):
            if sum(split) != groups - 1:
                continue
            for inner in itertools.product(*[shapes(depth - 1, g) for g in split]):
                body = [('open',), ('code',)] + inner[0]
                for a, x in zip(arms, inner[1:]):
                    body += [(a,), ('code',)] + x
                out.append(body + [('endif',)])
    return out


class Nesting(Harness):
    functions = Condition.functions + ['preprocess.PreprocStack.enter_region', 'preprocess.PreprocStack.modify_region',
                                       'preprocess.PreprocStack.exit_region', 'preprocess.PreprocStack.in_true_region']
    bounds = 'every nesting of up to 2 (thorough 3) conditionals and three inside each other, with up to two #elif and an #else, each condition free'
    budget = 800

    def cases(self, tier):
        out = []
        for g in ((1, 2, 'deep') if tier == 'quick' else (1, 2, 3)):
            k = {1: 1, 2: 7, 3: 60, 'deep': 8}[g]
            out += [dict(g=g, part=i, of=k) for i in range(k)]
        return out

    def inputs(self, case, eng):
        sh = selection(case['g'])[case['part']::case['of']]
        i = eng.concretize(eng.int('shape', 0, len(sh) - 1))
        return dict(prog=self.build(sh[i], eng), style=i % 3, defs=self.defs)

    def build(self, sh, eng):
        """Fill in the conditions: each its own macro, symbolic."""
        prog, k, c = [], 0, 0
        self.defs = {}
        for x in sh:
            if x[0] == 'code':
                prog.append(['code', 'x%d = 1' % c])
                c += 1
            elif x[0] in ('open', 'elif'):
                n = 'M%d' % k
                if x[0] == 'open' and k % 3 != 2:
                    if eng.pick([True, False]):
                        self.defs[n] = None
                    prog.append(['ifdef' if k % 3 == 0 else 'ifndef', n])
                else:
                    self.defs[n] = text(n, 1, DIG)
                    prog.append(['if' if x[0] == 'open' else 'elif', ['cmp', '>', ['name', n], ['int', 4]]])
                k += 1
            else:
                prog.append([x[0]])
        return prog + [['code', 'last = 1']]

    def agree(self, case, inp):
        o = outcome(read, write(inp['prog'], inp['style']), dict(inp['defs']))
        return compare(o, [cpp(inp['prog'], macros(inp['defs']))], 'nesting')


D, U, CODE = (lambda n, v=None: ['define', n, v]), (lambda n: ['undef', n]), (lambda k: ['code', 'y%d = 0' % k])
IFD, IFN, END, ELSE = (lambda n: ['ifdef', n]), (lambda n: ['ifndef', n]), ['endif'], ['else']
EQ = lambda n, v: ['if', ['cmp', '==', ['name', n], ['int', v]]]
TESTA = [IFD('A'), CODE(8), ELSE, CODE(9), END]
DEFINES = [
    [D('A')] + TESTA,
    [D('A', '?'), EQ('A', 3), CODE(0), END] + TESTA,
    [U('A')] + TESTA,
    [IFD('B'), D('A'), END] + TESTA,
    [IFD('B'), U('A'), ELSE, D('A', '7'), END] + TESTA + [IFD('A'), EQ('A', 7), CODE(1), END, END],
    [IFN('A'), D('A'), END] + TESTA,
    [IFD('B'), IFN('A'), D('A', '?'), END, ELSE, D('A', '4'), END, IFD('A'), ['if', ['cmp', '>=', ['name', 'A'], ['int', 4]]], CODE(1), ELSE, CODE(2), END, END],
    [D('A', '?'), D('A', '5'), EQ('A', 5), CODE(0), ELSE, CODE(1), END, U('A')] + TESTA,
    [['if', ['def', 'B']], U('B'), ['elif', ['def', 'A']], U('A'), ELSE, D('B'), END, IFD('B'), CODE(2), END] + TESTA,
    [IFD('B'), ['if', ['name', 'B']], D('A'), ELSE, U('A'), END, END, ['if', ['||', ['def', 'A'], ['name', 'B']]], CODE(0), END],
]


class Defines(Harness):
    functions = Condition.functions
    bounds = '%d sequences of #define, #undef and conditionals; A and B initially undefined or defined with any value 0..99; then a second file with the same definitions' % len(DEFINES)

    def cases(self, tier):
        return list(range(len(DEFINES)))

    def inputs(self, case, eng):
        defs = definitions(eng, ['A', 'B'])
        if eng.pick([False, True]) and 'A' not in defs:
            defs['AB'] = None
        prog = []
        for ln in DEFINES[case]:
            if ln[0] == 'define' and ln[2] == '?':
                ln = ['define', ln[1], text('w', 1, DIG)]
            prog.append(ln)
        return dict(prog=prog, defs=defs)

    def agree(self, case, inp):
        second = TESTA + [IFD('B'), CODE(3), END]
        o = outcome(read, write(inp['prog'], 0), dict(inp['defs']), [write(second, 1)])
        return compare(o, [cpp(inp['prog'], macros(inp['defs'])), cpp(second, macros(inp['defs']))], 'definitions')


class Malformed(Harness):
    functions = Condition.functions
    bounds = 'every sequence of up to 4 (thorough 6) directives #ifdef, #if, #elif, #else, #endif that is not well nested'

    def cases(self, tier):
        return list(range(1, 5 if tier == 'quick' else 7))

    def inputs(self, case, eng):
        ks = [eng.pick(['ifdef', 'if', 'elif', 'else', 'endif']) for _ in range(case)]
        return dict(dirs=ks, defs=definitions(eng, ['A'], ['A']) if eng.pick([False, True]) else {'A': text('a', 1, DIG)})

    def agree(self, case, inp):
        ks = inp['dirs']
        stack, bad = [], False
        for k in ks:
            if k in ('if', 'ifdef'):
                stack.append(False)
            elif not stack or (k in ('else', 'elif') and stack[-1]):
                bad = True
                break
            elif k == 'endif':
                stack.pop()
            elif k == 'else':
                stack[-1] = True
        bad = bad or bool(stack)
        prog = []
        for i, k in enumerate(ks):
            prog += [[k, 'A'] if k == 'ifdef' else [k, ['cmp', '>', ['name', 'A'], ['int', i]]] if k in ('if', 'elif') else [k], ['code', 'x%d = 1' % i]]
        o = outcome(read, write(prog, 0), dict(inp['defs']))
        if bad:
            return [((not o.ok) and o.exc in ('ParseSyntaxError', 'CCPPError'), 'malformed nesting is not reported as an error')]
        return compare(o, [cpp(prog, macros(inp['defs']))], 'nesting')


HARNESSES = dict(condition=Condition(), nesting=Nesting(), defines=Defines(), malformed=Malformed())


def main(tier, only=None):
    return pmain('P16', tier, 'model_checking',
                 ['macro values are non-negative decimal integers; macros naming other macros, arithmetic and C comments in conditions are outside',
                  'comparisons involve defined macros only (for an undefined one the reader documents "false", cpp uses 0)',
                  'the text of each condition is concrete (the code hands it to Python\'s parser); definitions and values are symbolic'],
                 [], [], only)
