"""P17: wrapped Fortran output means the same as the statement given."""
from vt.pysym.check import Harness, module, outcome, main as pmain, mk
from vt.pysym.files import files
from vt.pysym.sym import same, chs, ask, char
from vt.engine import cur
from .P15 import logical_lines, Invalid, kind

SIZES = {'small': (12, 16), 'default': (None, None)}


def emit(stmt, level, size):
    fw = module('fortran_write')
    fill, lmax = SIZES[size]
    with files([fw], {}) as f:
        kw = {} if fill is None else dict(indent=1, continue_indent=2, line_fill=fill, line_max=lmax)
        w = fw.FortranWriter('out.F90', 'w', 'test', 'm', **kw)
        w.write(stmt, level)
        out = f.out['out.F90'].text()
    lines, cur_ = [], []
    for c in chs(out):
        if c == '\n':
            lines.append(cur_)
            cur_ = []
        else:
            cur_.append(c)
    return lines, cur_


def crowded(cs):
    """Three operator characters in a row (no valid statement has them)."""
    run, quote = 0, None
    for c in cs:
        q = kind(c)
        if quote:
            if q == quote:
                quote = None
            continue
        if q in '\'"':
            quote, run = q, 0
        elif q == '!':
            return False
        elif q != ' ':
            run = run + 1 if (c in '/=*<>:' if isinstance(c, str) else ask(c.cond('/=*<>:'))) else 0
            if run > 2:
                return True
    return False


class Write(Harness):
    functions = ['fortran_write.FortranWriter.write', 'fortran_write.FortranWriter.find_best_break', 'fortran_write.FortranWriter._in_quote',
                 'fortran_write.FortranWriter.indent', 'fortran_write.FortranWriter.comment']
    budget = 800

    def __init__(self, size, quick, thorough, alphabet, bounds, levels=(0, 2)):
        self.size, self.q, self.t, self.alphabet, self.bounds, self.levels = size, quick, thorough, alphabet, bounds, levels

    def cases(self, tier):
        return [dict(t=t, level=l) for t in (self.q if tier == 'quick' else self.q + self.t) for l in self.levels]

    def inputs(self, case, eng):
        s = []
        for j, c in enumerate(case['t']):
            s.append(char('c%d' % j, self.alphabet) if c == '?' else c)
        return dict(stmt=mk(s))

    def agree(self, case, inp):
        cs = chs(inp['stmt'])
        try:
            want = logical_lines([cs])
        except Invalid:
            return []
        if len(want) > 1 or (want and crowded(cs)):
            return []
        o = outcome(emit, inp['stmt'], case['level'], self.size)
        if not o.ok:
            return [(False, 'writing a valid statement fails (%s)' % o.exc)]
        lines, rest = o.val
        if rest:
            return [(False, 'the last line is not ended')]
        limit = SIZES[self.size][1] or 130
        if any(len(x) > limit for x in lines):
            return [(False, 'a line is longer than the limit')]
        try:
            got = logical_lines(lines)
        except Invalid:
            return [(False, 'the output is not valid free-form Fortran')]
        if len(got) != len(want):
            return [(False, 'the output holds %d statements instead of %d' % (len(got), len(want)))]
        return [(same(mk(g), mk(w)) if len(g) == len(w) else False, 'the output is another statement than the one given')
                for g, w in zip(got, want)] or [(True, 'comment only')]


A = 'ab ,/=\'"!'
Q = ["call f('??", ]
SMALL = [
    'abcde fg????hi', 'abc, defg????', 'x = ab????abcdefghijkl', 'call f(ab, ????, x)', "call f('abcdef???hij', x)", "c = 'abcdefghijklm???pqrstuvwxyzab'",
    'c = "ab?"//\'de?fghi\'//x?', 'abcdefghijk??mnopqrstuvwxyz?abc', "p = 'ab''?d???'//'x'", 'x = 1 ! ??? comments and more ?', '! ??? a comment that is long ?', '!?abcdefghijklmnopqrstuvw',
    "print *, 'it''s', '???', x", "a = 'abcdefghijklmnopqrstuvwxyz  ? ?bc'", "if (a == '?, ? b') call foo(b, '?')", 'abcdefghijklm ? ! ?? x', 'abcdefgh???ijklm', 'abcdefghijkl???mn//opq??r=s', 'if(a==b)abc=>??de?fgh//ij', "c = 'a! b! c!'  ?? a ?",
]
SMALL_T = ['????abcdefg???', "call f('a???', '???')", 'a??????????????c', "c = '??????????', d"]
LONG = 'call some_routine_with_a_long_name(first_argument=first_value, second_argument=second_value, third=thi'
DEF = [LONG[:90] + '????, x, some_more_arguments=abc)', LONG + '??' + 'x' * 28 + '??, y)', "call e('" + 'word ' * 18 + '???' + ' word' * 14 + "?')",
       'x' * 95 + '?' + 'x' * 33 + '?' + 'y' * 40, "c = 'x" + 'abc, ' * 60 + "?'//'" + 'efg! ' * 12 + "??'", '   ' + 'abc' * 31 + '= a ! ??' + ' remark' * 12, '! ' + 'text ' * 17 + '????' + ' text' * 30]
HARNESSES = dict(small=Write('small', SMALL, SMALL_T, A, 'a writer with limits 12/16: templates of 13-40 characters with 3-4 (thorough up to 14) of them symbolic'),
                 default=Write('default', DEF, [], A, 'the default limits 97/130: statements of 130-370 characters with 2-4 symbolic characters around the break points'),
                 nested=Write('small', ['a = ????', 'x ????', 'ab????'], ['x ??????', 'ab?????'], A, 'short statements at indents close to the limit', levels=(5, 9)))


def main(tier, only=None):
    return pmain('P17', tier, 'model_checking',
                 ['the statement given is one valid free-form statement, with or without trailing comment; blanks outside literals count only between names or numbers or inside a two-character token'],
                 [], ['alphabet: letters, blank, comma, slash, equal sign, both quotes and "!"'], only)
