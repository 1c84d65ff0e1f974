"""Regular expressions over symbolic strings: a backtracking matcher for the parse trees of Python's own re compiler.

The matcher visits alternatives in the order the real one does; every character test is a question to the engine.
"""
import re
import functools
import z3
from .sym import SymStr, SymCh, mk, chs, is_in, eqcond, ask, concretize, show
from ..engine import Inconclusive
try:
    from re import _parser as P, _constants as K
except ImportError:                                     # Python < 3.11
    import sre_parse as P
    import sre_constants as K

ALL = frozenset(chr(i) for i in range(128))
CAT = {K.CATEGORY_DIGIT: lambda c: '0' <= c <= '9', K.CATEGORY_SPACE: lambda c: c in ' \t\n\r\x0b\x0c',
       K.CATEGORY_WORD: lambda c: c == '_' or (c.isascii() and c.isalnum())}
CAT.update({K.CATEGORY_NOT_DIGIT: lambda c: not CAT[K.CATEGORY_DIGIT](c), K.CATEGORY_NOT_SPACE: lambda c: not CAT[K.CATEGORY_SPACE](c),
            K.CATEGORY_NOT_WORD: lambda c: not CAT[K.CATEGORY_WORD](c)})
WORD = frozenset(c for c in ALL if CAT[K.CATEGORY_WORD](c))


@functools.lru_cache(None)
def tree(pattern, flags):
    p = P.parse(pattern, flags)
    return p, p.state.flags, dict(p.state.groupdict), p.state.groups


def charset(op, av, flags):
    """Characters accepted by a single-character node."""
    ic = flags & re.IGNORECASE

    def lit(c, code):
        return ord(c) == code or (ic and (ord(c.lower()) == code or ord(c.upper()) == code))
    if op is K.LITERAL:
        return frozenset(c for c in ALL if lit(c, av))
    if op is K.NOT_LITERAL:
        return frozenset(c for c in ALL if not lit(c, av))
    if op is K.ANY:
        return ALL if flags & re.DOTALL else ALL - {'\n'}
    if op is K.IN:
        out = set()
        neg = False
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                out |= {c for c in ALL if lit(c, a)}
            elif o is K.RANGE:
                out |= {c for c in ALL if any(a[0] <= ord(x) <= a[1] for x in ({c, c.lower(), c.upper()} if ic else {c}) if len(x) == 1)}
            elif o is K.CATEGORY:
                out |= {c for c in ALL if CAT[a](c)}
            else:
                raise Inconclusive("regular expression set item %s" % o)
        return ALL - out if neg else frozenset(out)
    return None


_sets = {}


def setof(op, av, flags):
    key = (op, repr(av), flags & (re.I | re.S))
    if key not in _sets:
        _sets[key] = charset(op, av, flags)
    return _sets[key]


class M:
    def __init__(self, s, flags):
        self.x = chs(s)
        self.n = len(self.x)
        self.flags = flags

    def seq(self, nodes, k, i, g):
        """All ways to match nodes[k:] at i with groups g: yields (end, groups)."""
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        cs = setof(op, av, self.flags) if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN) else None
        if cs is not None:
            if i < self.n and is_in(self.x[i], cs):
                yield from self.seq(nodes, k + 1, i + 1, g)
            return
        for j, h in self.node(op, av, i, g):
            yield from self.seq(nodes, k + 1, j, h)

    def node(self, op, av, i, g):
        if op is K.SUBPATTERN:
            grp, add, dele, p = av
            old = self.flags
            self.flags = (old | add) & ~dele
            try:
                for j, h in self.seq(list(p), 0, i, g):
                    if grp is not None:
                        h = dict(h)
                        h[grp] = (i, j)
                        h['last'] = grp
                    yield j, h
            finally:
                self.flags = old
        elif op is K.BRANCH:
            for p in av[1]:
                yield from self.seq(list(p), 0, i, g)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            hi = None if hi is K.MAXREPEAT else hi
            yield from self.rep(list(p), lo, hi, op is K.MAX_REPEAT, 0, i, g)
        elif op is K.AT:
            if self.at(av, i):
                yield i, g
        elif op is K.GROUPREF:
            if av in g:
                a, b = g[av]
                if i + b - a <= self.n and all(ask(eqcond(self.x[a + t], self.x[i + t])) for t in range(b - a)):
                    yield i + b - a, g
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d > 0:
                r = next(self.seq(list(p), 0, i, g), None)
            else:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Inconclusive("variable look-behind")
                r = next(self.seq(list(p), 0, i - lo, g), None) if i >= lo else None
            if op is K.ASSERT:
                if r is not None:
                    yield i, r[1]
            elif r is None:
                yield i, g
        else:
            raise Inconclusive("regular expression node %s" % op)

    def rep(self, p, lo, hi, greedy, n, i, g):
        more = hi is None or n < hi
        if not greedy and n >= lo:
            yield i, g
        if more:
            for j, h in self.seq(p, 0, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.rep(p, lo, hi, greedy, n + 1, j, h)
        if greedy and n >= lo:
            yield i, g

    def at(self, w, i):
        if w in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return bool(w is K.AT_BEGINNING and self.flags & re.MULTILINE and is_in(self.x[i - 1], '\n'))
        if w is K.AT_END_STRING:
            return i == self.n
        if w is K.AT_END:
            if i == self.n:
                return True
            if self.flags & re.MULTILINE or i == self.n - 1:
                return is_in(self.x[i], '\n')
            return False
        if w in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            a = i > 0 and is_in(self.x[i - 1], WORD)
            b = i < self.n and is_in(self.x[i], WORD)
            return (a != b) == (w is K.AT_BOUNDARY)
        raise Inconclusive("regular expression anchor %s" % w)


class SymMatch:
    def __init__(self, pat, s, g, span):
        self.re, self.string, self._g = pat, s, dict(g)
        self.lastindex = self._g.pop('last', None)
        self._g[0] = span
        self._names = pat.groupindex
        self.pos, self.endpos = 0, len(s)

    def _n(self, k):
        if isinstance(k, str):
            if k not in self._names:
                raise IndexError('no such group')
            return self._names[k]
        k = int(k)
        if k < 0 or k > self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, default=None):
        s = self._g.get(self._n(k))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *k):
        if not k:
            return self._one(0)
        return self._one(k[0]) if len(k) == 1 else tuple(self._one(x) for x in k)
    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self._names}

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


def compiled(pat, flags=0):
    if isinstance(pat, re.Pattern):
        return pat
    return re.compile(concretize(pat), flags)


class D:
    """Which ends a pattern can reach, as conditions on the characters (no forks)."""
    def __init__(self, s):
        self.x = chs(s)
        self.n = len(self.x)
        self.memo = {}

    def one(self, c, cs):
        return (c in cs) if isinstance(c, str) else c.cond(cs)

    def seq(self, p, i, fl):
        key = (id(p), i, fl)
        if key in self.memo:
            return self.memo[key]
        cur_ = {i: True}
        for op, av in p:
            nxt = {}
            for j, c in cur_.items():
                for e, d in self.node(op, av, j, fl).items():
                    put(nxt, e, both(c, d))
            cur_ = nxt
            if not cur_:
                break
        self.memo[key] = cur_
        return cur_

    def node(self, op, av, i, fl):
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if i >= self.n:
                return {}
            c = self.one(self.x[i], setof(op, av, fl))
            return {} if c is False else {i + 1: c}
        if op is K.SUBPATTERN:
            return self.seq(av[3], i, (fl | av[1]) & ~av[2])
        if op is K.BRANCH:
            out = {}
            for p in av[1]:
                for e, d in self.seq(p, i, fl).items():
                    put(out, e, d)
            return out
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            layer, out = {i: True}, {}
            if lo == 0:
                out[i] = True
            k = 0
            top = self.n + lo + 1 if hi is K.MAXREPEAT else hi
            while k < top and layer:
                nxt = {}
                for j, c in layer.items():
                    for e, d in self.seq(p, j, fl).items():
                        if e == j and k >= lo:
                            continue
                        put(nxt, e, both(c, d))
                layer = nxt
                k += 1
                if k >= lo:
                    for e, d in layer.items():
                        put(out, e, d)
            return out
        if op is K.AT:
            c = self.at(av, i, fl)
            return {} if c is False else {i: c}
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Inconclusive("variable look-behind")
                r = self.seq(p, i - lo, fl) if i >= lo else {}
                c = r.get(i, False)
            else:
                c = any_of(list(self.seq(p, i, fl).values()))
            if op is K.ASSERT_NOT:
                c = (not c) if isinstance(c, bool) else z3.Not(c)
            return {} if c is False else {i: c}
        raise Unsupported()

    def at(self, w, i, fl):
        def has(j, cs):
            return self.one(self.x[j], frozenset(cs)) if 0 <= j < self.n else False
        if w in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return True if i == 0 else has(i - 1, '\n') if w is K.AT_BEGINNING and fl & re.MULTILINE else False
        if w is K.AT_END_STRING:
            return i == self.n
        if w is K.AT_END:
            return True if i == self.n else has(i, '\n') if fl & re.MULTILINE or i == self.n - 1 else False
        if w in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            a, b = has(i - 1, WORD), has(i, WORD)
            d = z3.Xor(zb(a), zb(b))
            d = z3.simplify(d if w is K.AT_BOUNDARY else z3.Not(d))
            return True if z3.is_true(d) else False if z3.is_false(d) else d
        raise Unsupported()


class Unsupported(Exception):
    pass


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def both(a, b):
    if a is False or b is False:
        return False
    return b if a is True else a if b is True else z3.And(a, b)


def put(d, k, c):
    if c is False:
        return
    o = d.get(k, False)
    d[k] = True if o is True or c is True else c if o is False else z3.Or(o, c)


def any_of(cs):
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return False if not cs else cs[0] if len(cs) == 1 else z3.Or(cs)


def matches(pat, s, i, full=False):
    """Condition: the pattern matches s at i (None: not expressible, use the backtracker)."""
    t, flags, _, _ = tree(pat.pattern, pat.flags)
    try:
        ends = D(s).seq(t, i, flags)
    except Unsupported:
        return None
    if full:
        return ends.get(len(s), False)
    return any_of(list(ends.values()))


class LazyMatch(SymMatch):
    """A match known to exist; the groups are worked out when they are asked for."""
    def __init__(self, pat, s, i, full):
        self.re, self.string = pat, s
        self._names = pat.groupindex
        self.pos, self.endpos = 0, len(s)
        self._at = i, full

    def __getattr__(self, n):
        if n in ('_g', 'lastindex'):
            m = _back(self.re, self.string, self._at[0], self._at[1])
            if m is None:
                raise Inconclusive("pattern matcher disagrees with itself on %r" % self.re.pattern)
            self._g, self.lastindex = m._g, m.lastindex
            return self.__dict__[n]
        raise AttributeError(n)


def _back(pat, s, i, full=False):
    t, flags, _, _ = tree(pat.pattern, pat.flags)
    m = M(s, flags)
    for j, g in m.seq(list(t), 0, i, {}):
        if full and j != m.n:
            continue
        return SymMatch(pat, s, g, (i, j))
    return None


def _run(pat, s, i, full=False):
    c = matches(pat, s, i, full)
    if c is None:
        return _back(pat, s, i, full)
    return LazyMatch(pat, s, i, full) if ask(c) else None


def match(pat, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    return _run(pat, s, pos)


def fullmatch(pat, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    return _run(pat, s, pos, True)


def search(pat, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    for i in range(pos, len(s) + 1):
        r = _run(pat, s, i)
        if r is not None:
            return r
    return None


def finditer(pat, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    out, i, must = [], pos, False
    t, flags, _, _ = tree(pat.pattern, pat.flags)
    while True:
        r = None
        for st in range(i, len(s) + 1):
            c = matches(pat, s, st)
            if c is not None and not ask(c):
                continue
            for j, g in M(s, flags).seq(list(t), 0, st, {}):
                if must and st == i and j == i:     # the previous match was empty and ended here
                    continue
                r = SymMatch(pat, s, g, (st, j))
                break
            if r is not None:
                break
        if r is None:
            return out
        out.append(r)
        must = r.end() == r.start()
        i = r.end()


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        out.append(m.group() if pat.groups == 0 else m.group(1) or '' if pat.groups == 1 else tuple(x or '' for x in m.groups()))
    return out


def split(pat, s, maxsplit=0):
    out, b = [], 0
    for m in finditer(pat, s):
        if maxsplit and (len(out) // (1 + pat.groups)) >= maxsplit:
            break
        out.append(s[b:m.start()])
        out += list(m.groups())
        b = m.end()
    out.append(s[b:])
    return out


def expand(m, repl):
    out, i = [], 0
    repl = concretize(repl)
    while i < len(repl):
        c = repl[i]
        if c == '\\':
            q = re.match(r'\\(\d{1,2}|g<(\w+)>|.)', repl[i:], re.S)
            t = q.group(1)
            i += q.end()
            if t.isdigit():
                out += chs(m.group(int(t)) or '')
            elif t.startswith('g<'):
                k = q.group(2)
                out += chs(m.group(int(k) if k.isdigit() else k) or '')
            else:
                out += list({'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(t, '\\' + t))
        else:
            out.append(c)
            i += 1
    return mk(out)


def subn(pat, repl, s, count=0):
    out, b, n = [], 0, 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out += chs(s[b:m.start()])
        out += chs(repl(m) if callable(repl) else expand(m, repl))
        b = m.end()
        n += 1
    out += chs(s[b:])
    return mk(out), n


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


FUNCS = dict(match=match, fullmatch=fullmatch, search=search, finditer=lambda *a, **k: iter(finditer(*a, **k)), findall=findall, split=split,
             sub=sub, subn=subn)


def modcall(name, args, kw):
    """re.<name>(pattern, ..., flags) with symbolic arguments."""
    args = list(args)
    nsub = {'sub': 3, 'subn': 3}.get(name, 2)
    flags = kw.pop('flags', 0)
    pat = args.pop(0)
    if name in ('sub', 'subn') and len(args) > 3:
        flags = args.pop(3)
    elif name == 'split' and len(args) > 2:
        flags = args.pop(2)
    elif name in ('match', 'fullmatch', 'search', 'findall', 'finditer') and len(args) > 1:
        flags = args.pop(1)
    return FUNCS[name](compiled(pat, flags), *args, **kw)
