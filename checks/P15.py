"""P15: the Fortran reader sees exactly the statements of a free-form source."""
import os
from vt.pysym.check import Harness, module, outcome, main as pmain, mk
from vt.pysym.files import files
from vt.pysym.sym import same, chs, ask, char
from vt.pysym.grammar import conj
from vt.engine import cur

SPECIAL = '\'"!&; \\'
PUNCT = '\'"!&;\\'


def kind(c):
    """Which special character c is (on this path), 'a' for any other."""
    if isinstance(c, str):
        return c if c in SPECIAL else 'a'
    for k in SPECIAL:
        if ask(c.cond(k)):
            return k
    return 'a'


class Invalid(Exception):
    pass


def logical_lines(lines):
    """The Fortran standard's view of a free-form source: the statements with their characters, or Invalid.

    A character is (kind, char); text inside character context is marked so that its blanks count."""
    out, stmt, quote, cont = [], [], None, False
    for ln in lines:
        k = [kind(c) for c in ln]
        i, n = 0, len(ln)
        while n and k[n - 1] == ' ':
            n -= 1
        if n and k[n - 1] == '\\':
            raise Invalid                              # line splicing by the preprocessor
        while i < n and k[i] == ' ':
            i += 1
        if i == n or k[i] == '!':
            continue                                   # blank and comment lines, also between continued lines
        if k[i] == '&':
            if not cont:
                raise Invalid
            i += 1
            j = i
            while j < n and k[j] == ' ':
                j += 1
            if j == n or (k[j] == '!' and quote is None) or (k[j] == '&' and j == n - 1):
                raise Invalid                          # a line with nothing but '&'
        elif quote is not None:
            raise Invalid                              # continued character context needs a leading '&'
        elif cont:
            stmt.append((' ', ' ', False))
        cont = False
        while i < n:
            c, q = ln[i], k[i]
            if quote is not None:
                if q == '&' and i == n - 1:
                    cont = True
                    break
                stmt.append((q, c, True))
                if q == quote:
                    quote = None
            elif q in '\'"':
                quote = q
                stmt.append((q, c, True))
            elif q == '!':
                break
            elif q == '&':
                j = i + 1
                while j < n and k[j] == ' ':
                    j += 1
                if j < n and k[j] != '!':
                    raise Invalid
                cont = True
                break
            elif q == ';':
                out.append(stmt)
                stmt = []
            elif q == '\\':
                raise Invalid
            else:
                stmt.append((q, c, False))
            i += 1
        if not cont:
            if quote is not None:
                raise Invalid
            out.append(stmt)
            stmt = []
    if cont:
        raise Invalid
    return [s for s in (tidy(s) for s in out) if s]


NAMECH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_%'


def word(x):
    if x is None or x[1] or x[2] != 'a':
        return False
    return x[0] in NAMECH if isinstance(x[0], str) else ask(x[0].cond(NAMECH))


PAIRS = ('==', '=>', '/=', '**', '//', '<=', '>=', '::', '(/', '/)')


def pair(x, y):
    """The two characters side by side would be another token."""
    if x[1] or y[1] or x[2] != 'a' or y[2] != 'a':
        return False
    is_ = lambda c, w: c == w if isinstance(c, str) else ask(c.cond(w))
    return any(is_(x[0], p[0]) and is_(y[0], p[1]) for p in PAIRS)


def tidy(stmt):
    """Outside character context only a blank between two names or numbers or inside a two-character token counts, and only one."""
    out = []
    for q, c, inside in stmt:
        if q == ' ' and not inside:
            if out and out[-1] is not None:
                out.append(None)
            continue
        x = (c, inside, q)
        if out and out[-1] is None and not (word(x) and word(out[-2])) and not pair(out[-2], x):
            out.pop()
        out.append(x)
    if out and out[-1] is None:
        out.pop()
    return [' ' if x is None else x[0] for x in out]


def read(lines):
    PF = module('parse_fortran_file')
    real = os.path.exists
    name = 'vt_source.F90'
    os.path.exists = lambda f: True if f == name else real(f)
    try:
        with files([PF], {name: [mk(x) for x in lines]}):
            pobj = PF.read_file(name)
            pobj.reset_pos()
            first, _ = pobj.curr_line()
            st = PF.line_statements(first) if len(first) else []
            got = []
            while st is not None:
                got += st
                st = PF.read_statements(pobj)
            return got
    finally:
        os.path.exists = real


def strip_comment(s):
    """A statement the reader returned, as (kind, char, inside) up to its comment."""
    out, quote = [], None
    for c in chs(s):
        q = kind(c)
        if quote is not None:
            out.append((q, c, True))
            if q == quote:
                quote = None
        elif q in '\'"':
            quote = q
            out.append((q, c, True))
        elif q == '!':
            break
        else:
            out.append((q, c, False))
    return out


class Source(Harness):
    functions = ['parse_fortran_file.read_file', 'parse_fortran_file.scan_free_line', 'parse_fortran_file.line_statements',
                 'parse_fortran_file.read_statements', 'parse_object.ParseObject.curr_line/next_line/write_line/reset_pos',
                 'preprocess.PreprocStack.is_preproc_line']
    budget = 800

    def __init__(self, quick, thorough, alphabet, bounds):
        self.q, self.t, self.alphabet, self.bounds = quick, thorough, alphabet, bounds

    def cases(self, tier):
        return self.q if tier == 'quick' else self.q + self.t

    def inputs(self, case, eng):
        lines = []
        for i, tmpl in enumerate(case):
            ln = []
            for j, c in enumerate(tmpl):
                ln.append(char('c%d_%d' % (i, j), self.alphabet) if c == '?' else c)
            lines.append(mk(ln))
        return dict(lines=lines)

    def agree(self, case, inp):
        lines = [chs(x) for x in inp['lines']]
        try:
            want = logical_lines(lines)
        except Invalid:
            return []
        o = outcome(read, lines)
        if not o.ok:
            return [(False, 'a valid source is rejected (%s)' % o.exc)]
        got = [tidy(strip_comment(s)) for s in o.val]
        # statements consisting of a comment only carry no code
        got = [g for g, s in zip(got, o.val) if g or not any(kind(c) == '!' for c in chs(s))]
        if any(not g for g in got):
            return [(False, 'an empty statement is returned')]
        if len(got) != len(want):
            return [(False, 'wrong number of statements (%d instead of %d)' % (len(got), len(want)))]
        res = []
        for g, w in zip(got, want):
            res.append((same(mk(g), mk(w)) if len(g) == len(w) else False, 'a statement differs from what the compiler sees'))
        return res or [(True, 'no statement')]


Q = '?'
A = 'ab \'"!&;\\'
HARNESSES = dict(
    lines=Source([['????', 'z'], ['??', '??', 'z'], ['???', '?', 'z'], ['?', '???', 'z'], ['?', '??', '?', 'z']],
                 [['?????', 'z'], ['???', '??', 'z'], ['??', '???', 'z'], ['??', '??', '?', 'z'], ['?', '??', '??', 'z']], A,
                 'every source of up to 3 lines with 4 (thorough 5) symbolic characters, followed by a line of code'),
    continued=Source([['x =??&', '?? y', 'z'], ["p = '?&", ' &??', 'z'], ['q = "?\'?', 'z'], ['x ??& ! c?', '! d&', ' &??', 'z'],
                      ["c ='a'??b", 'z'], ['x = a & !?', '', '  ??&', '  &? y', 'z']],
                     [["x = '??&", ' &??', 'z'], ['x ??&', ' ???', 'z'], ['x = "??"??', ' ?', 'z'], ["p = '??''?'", 'z'],
                      ['x ?&', ' ??&', ' ?y', 'z']], A,
                     'templates of continued statements, comments and literals with 3-4 symbolic characters each'))


def main(tier, only=None):
    return pmain('P15', tier, 'model_checking',
                 ['source files are free form (.F90) and lexically valid Fortran; blanks outside character literals count only between two names or numbers',
                  'no line ends in a backslash (cpp joins such lines, as the reader does); no preprocessor directives (see P16); lines are those open() returns (stand-in file)'],
                 [], ['alphabet: letters, blank, both quotes, "!", "&", ";" and backslash'], only)
