"""Regular grammars written by hand (the oracles), decided as one condition on the characters - no forks."""
import z3
from .sym import chs
from .rx import put, both


class G:
    def __add__(self, o):
        return Seq(self, lit(o))

    def __radd__(self, o):
        return Seq(lit(o), self)

    def __or__(self, o):
        return Alt(self, lit(o))

    def __ror__(self, o):
        return Alt(lit(o), self)


class Set(G):
    def __init__(self, chars):
        self.chars = frozenset(chars)

    def ends(self, x, i):
        if i >= len(x):
            return {}
        c = x[i]
        c = (c in self.chars) if isinstance(c, str) else c.cond(self.chars)
        return {} if c is False else {i + 1: c}


class Seq(G):
    def __init__(self, *p):
        self.p = [lit(q) for q in p]

    def ends(self, x, i):
        cur = {i: True}
        for p in self.p:
            nxt = {}
            for j, c in cur.items():
                for e, d in p.ends(x, j).items():
                    put(nxt, e, both(c, d))
            cur = nxt
        return cur


class Alt(G):
    def __init__(self, *p):
        self.p = [lit(q) for q in p]

    def ends(self, x, i):
        out = {}
        for p in self.p:
            for e, d in p.ends(x, i).items():
                put(out, e, d)
        return out


class Many(G):
    """p repeated lo..hi times."""
    def __init__(self, p, lo=0, hi=None):
        self.p, self.lo, self.hi = lit(p), lo, hi

    def ends(self, x, i):
        layer, out, k = {i: True}, ({i: True} if self.lo == 0 else {}), 0
        while layer and (self.hi is None or k < self.hi) and k <= len(x) + self.lo:
            nxt = {}
            for j, c in layer.items():
                for e, d in self.p.ends(x, j).items():
                    if e > j or k < self.lo:
                        put(nxt, e, both(c, d))
            layer = nxt
            k += 1
            if k >= self.lo:
                for e, d in layer.items():
                    put(out, e, d)
        return out


class Word(G):
    """A fixed text (ic: in any case)."""
    def __init__(self, w, ic=False):
        self.g = Seq(*[Set({c, c.lower(), c.upper()} if ic else {c}) for c in w])

    def ends(self, x, i):
        return self.g.ends(x, i)


def Opt(p):
    return Many(p, 0, 1)


def lit(p):
    return Word(p) if isinstance(p, str) else p


def accepts(g, s):
    """Condition: g derives exactly s."""
    x = chs(s)
    return lit(g).ends(x, 0).get(len(x), False)


LETTER = Set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = Set('0123456789')
ALNUM_ = Set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
SP = Many(Set(' '))
IDENT = LETTER + Many(ALNUM_)
INT = Opt(Set('+-')) + Many(DIGIT, 1)
EXPONENT = Set('eE') + INT
REAL = Opt(Set('+-')) + (Many(DIGIT, 1) + '.' + Many(DIGIT) | '.' + Many(DIGIT, 1)) + Opt(EXPONENT)


def neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def conj(*cs):
    out = True
    for c in cs:
        out = both(out, c)
    return out


def disj(*cs):
    d = {}
    for c in cs:
        put(d, 0, c)
    return d.get(0, False)


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else z3.Not(b)
    if isinstance(b, bool):
        return a if b else z3.Not(a)
    return a == b


def implies(a, b):
    return disj(neg(a), b)
