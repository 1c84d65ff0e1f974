"""Symbolic strings and integers for executing the real Python code over z3.

A SymStr has a concrete length; each character is a Python character or a SymCh (an 8-bit z3 term with a finite domain).  Every
comparison the code makes is turned into a question to the engine, which forks where both answers are possible.
"""
import string as _string
import z3
from ..engine import cur, Inconclusive, Infeasible, Counterexample

SPACES = ' \t\n\r\x0b\x0c'
DIGITS = '0123456789'
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = UPPER.lower()


class SymCh:
    """One symbolic character."""
    __slots__ = ('bv', 'dom')

    def __init__(self, bv, dom):
        self.bv = bv
        self.dom = dom          # frozenset of possible characters

    def cond(self, chars):
        """z3 condition: this character is one of chars (None: decided by the domain)."""
        s = self.dom & frozenset(chars)
        if not s:
            return False
        if s == self.dom:
            return True
        inv = self.dom - s
        if len(inv) < len(s):
            c = [self.bv != ord(x) for x in sorted(inv)]
            return c[0] if len(c) == 1 else z3.And(c)
        c = [self.bv == ord(x) for x in sorted(s)]
        return c[0] if len(c) == 1 else z3.Or(c)

    def map(self, f):
        """Character with f applied (f: char -> char)."""
        ch = [x for x in sorted(self.dom) if f(x) != x]
        if not ch:
            return self
        e = self.bv
        groups = {}
        for x in ch:
            groups.setdefault(ord(f(x)) - ord(x), []).append(x)
        for d, xs in groups.items():
            c = self.cond(xs)
            v = self.bv + d
            e = v if c is True else z3.If(c, v, e)
        return SymCh(e, frozenset(f(x) for x in self.dom))


def char(name, dom):
    """Fresh symbolic character over the given alphabet."""
    eng = cur()
    name = eng.fresh(name)
    bv = z3.BitVec(name, 8)
    eng.inputs[name] = bv
    c = SymCh(bv, frozenset(dom))
    eng.assume(z3.Or([bv == ord(x) for x in sorted(c.dom)]))
    return c


def text(name, n, dom):
    """Symbolic string of n characters."""
    return mk([char('%s_%d' % (name, i), dom) for i in range(n)])


def mk(chars):
    cs = []
    for c in chars:
        if isinstance(c, SymCh) and len(c.dom) == 1:
            c = next(iter(c.dom))
        cs.append(c)
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return SymStr(cs)


def chs(s):
    """Character list of a string."""
    if type(s) is SymStr:
        return s.ch
    if isinstance(s, str):
        return list(s)
    raise TypeError("expected str, got %s" % type(s).__name__)


def is_in(c, chars):
    """Fork on membership of one character in a set of characters."""
    if isinstance(c, str):
        return c in chars
    q = c.cond(chars)
    if q is True or q is False:
        return q
    return cur().branch(q)


def eqcond(a, b):
    """Equality of two characters as bool or z3."""
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return b.cond(a)
    if isinstance(b, str):
        return a.cond(b)
    if a is b:
        return True
    if not (a.dom & b.dom):
        return False
    return a.bv == b.bv


def streq(a, b):
    """Equality of two strings as bool or z3 condition."""
    x, y = chs(a), chs(b)
    if len(x) != len(y):
        return False
    cs = []
    for p, q in zip(x, y):
        e = eqcond(p, q)
        if e is False:
            return False
        if e is not True:
            cs.append(e)
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(cs)


def same(a, b):
    """Structural equality of results as a condition (no fork)."""
    if isinstance(a, str) and isinstance(b, str):
        return streq(a, b)
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return rexpr(a) == rexpr(b)
        return False
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            return iexpr(a) == iexpr(b)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        ka, kb = sorted(a, key=str), sorted(b, key=str)
        return conj([same(x, y) for x, y in zip(ka, kb)] + [same(a[x], b[y]) for x, y in zip(ka, kb)])
    return type(a) == type(b) and a == b or a is b or (a == b and isinstance(a, (int, float)) and isinstance(b, (int, float)))


def conj(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return True if not cs else cs[0] if len(cs) == 1 else z3.And(cs)


def ask(c):
    if c is True or c is False:
        return c
    return cur().branch(c)


class SymStr(str):
    __slots__ = ('ch',)

    def __new__(cls, chars):
        o = str.__new__(cls, '\uf8ff' * len(chars))
        o.ch = list(chars)
        return o

    # -------------------------------------------------------------- protocol
    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return bool(self.ch)

    def __iter__(self):
        for c in list(self.ch):
            yield mk([c])

    def __reversed__(self):
        return iter([mk([c]) for c in reversed(self.ch)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.ch[i])
        return mk([self.ch[i]])

    def __str__(self):
        return self

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(c if isinstance(c, str) else '?' for c in self.ch)

    def __format__(self, spec):
        return fmt(self, spec)

    def __hash__(self):
        return hash(concretize(self))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return ask(streq(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _cmp(self, o):
        for a, b in zip(self.ch, chs(o)):
            if ask(eqcond(a, b)):
                continue
            return -1 if ask(z3.ULT(cbv(a), cbv(b))) else 1
        return (len(self.ch) > len(o)) - (len(self.ch) < len(o))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.ch + chs(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(chs(o) + self.ch)

    def __mul__(self, n):
        return mk(self.ch * n)
    __rmul__ = __mul__

    def __mod__(self, a):
        return percent(self, a)

    def __rmod__(self, o):
        return percent(o, self)

    def __contains__(self, o):
        return S_find(self, o) >= 0

    def __getnewargs__(self):
        raise Inconclusive("symbolic string copied by pickle")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def cbv(c):
    return z3.BitVecVal(ord(c), 8) if isinstance(c, str) else c.bv


def concretize(s):
    """Fork over every value of s (fixes it on this path)."""
    if type(s) is not SymStr:
        return s
    for i, c in enumerate(s.ch):
        if isinstance(c, SymCh):
            s.ch[i] = chr(cur().concretize(c.bv))
    return ''.join(s.ch)


def value(s, model):
    """Concrete value of any result under a model."""
    if type(s) is SymStr:
        return ''.join(c if isinstance(c, str) else chr(model.eval(c.bv, model_completion=True).as_long()) for c in s.ch)
    if isinstance(s, SymInt):
        return model.eval(s.e, model_completion=True).as_long()
    if isinstance(s, SymFloat):
        return float(model.eval(s.e, model_completion=True).as_fraction())
    if isinstance(s, z3.ExprRef):
        v = model.eval(s, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else v.as_long() if z3.is_int_value(v) or z3.is_bv_value(v) else str(v)
    if isinstance(s, dict):
        return {value(k, model): value(v, model) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return type(s)(value(x, model) for x in s)
    return s


# ------------------------------------------------------------------ string methods
def _window(s, a, b):
    n = len(s)
    a = 0 if a is None else max(0, a + n) if a < 0 else a
    b = n if b is None else max(0, b + n) if b < 0 else min(b, n)
    return a, b


def at(s, i, pat):
    """Fork: does s hold pat at position i?"""
    x, y = chs(s), chs(pat)
    if i < 0 or i + len(y) > len(x):
        return False
    return ask(streq(mk(x[i:i + len(y)]), pat))


def S_find(s, sub, a=None, b=None):
    a, b = _window(s, a, b)
    for i in range(a, b - len(sub) + 1):
        if at(s, i, sub):
            return i
    return -1


def S_rfind(s, sub, a=None, b=None):
    a, b = _window(s, a, b)
    for i in range(b - len(sub), a - 1, -1):
        if at(s, i, sub):
            return i
    return -1


def S_index(s, sub, a=None, b=None):
    i = S_find(s, sub, a, b)
    if i < 0:
        raise ValueError('substring not found')
    return i


def S_rindex(s, sub, a=None, b=None):
    i = S_rfind(s, sub, a, b)
    if i < 0:
        raise ValueError('substring not found')
    return i


def S_count(s, sub, a=None, b=None):
    a, b = _window(s, a, b)
    n, i = 0, a
    while i + len(sub) <= b:
        if at(s, i, sub):
            n += 1
            i += max(1, len(sub))
        else:
            i += 1
    return n


def S_startswith(s, p, a=None, b=None):
    a, b = _window(s, a, b)
    t = mk(chs(s)[a:b])
    if isinstance(p, tuple):
        return any(S_startswith(t, q) for q in p)
    return at(t, 0, p)


def S_endswith(s, p, a=None, b=None):
    a, b = _window(s, a, b)
    t = mk(chs(s)[a:b])
    if isinstance(p, tuple):
        return any(S_endswith(t, q) for q in p)
    return len(p) <= len(t) and at(t, len(t) - len(p), p)


def S_replace(s, old, new, n=-1):
    if len(old) == 0:
        raise Inconclusive("replace of the empty string")
    out, i, x = [], 0, chs(s)
    while i < len(x):
        if n != 0 and i + len(old) <= len(x) and at(s, i, old):
            out += chs(new)
            i += len(old)
            n -= 1
        else:
            out.append(x[i])
            i += 1
    return mk(out)


def S_lstrip(s, c=None):
    x = chs(s)
    c = SPACES if c is None else concretize(c)
    i = 0
    while i < len(x) and is_in(x[i], c):
        i += 1
    return mk(x[i:])


def S_rstrip(s, c=None):
    x = chs(s)
    c = SPACES if c is None else concretize(c)
    i = len(x)
    while i > 0 and is_in(x[i - 1], c):
        i -= 1
    return mk(x[:i])


def S_strip(s, c=None):
    return S_lstrip(S_rstrip(s, c), c)


def S_split(s, sep=None, maxsplit=-1):
    x = chs(s)
    out = []
    if sep is None:
        i = 0
        while True:
            while i < len(x) and is_in(x[i], SPACES):
                i += 1
            if i == len(x):
                return out
            if maxsplit >= 0 and len(out) == maxsplit:
                out.append(S_rstrip(mk(x[i:])))
                return out
            j = i
            while j < len(x) and not is_in(x[j], SPACES):
                j += 1
            out.append(mk(x[i:j]))
            i = j
    if len(sep) == 0:
        raise ValueError('empty separator')
    i = b = 0
    while i + len(sep) <= len(x):
        if (maxsplit < 0 or len(out) < maxsplit) and at(s, i, sep):
            out.append(mk(x[b:i]))
            i += len(sep)
            b = i
        else:
            i += 1
    out.append(mk(x[b:]))
    return out


def S_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return S_split(s, sep)
    if sep is None:
        raise Inconclusive("rsplit on white space")
    x = chs(s)
    out = []
    e = len(x)
    i = e - len(sep)
    while i >= 0:
        if len(out) < maxsplit and at(s, i, sep):
            out.append(mk(x[i + len(sep):e]))
            e = i
            i -= len(sep)
        else:
            i -= 1
    out.append(mk(x[:e]))
    return out[::-1]


def S_partition(s, sep):
    i = S_find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])


def S_rpartition(s, sep):
    i = S_rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def S_splitlines(s, keepends=False):
    x = chs(s)
    out, b = [], 0
    for i, c in enumerate(x):
        if is_in(c, '\n\r\x0b\x0c'):
            out.append(mk(x[b:i + 1] if keepends else x[b:i]))
            b = i + 1
    if b < len(x):
        out.append(mk(x[b:]))
    return out


def _map(f):
    return lambda s: mk([f(c) if isinstance(c, str) else c.map(f) for c in chs(s)])


def _all(chars):
    def f(s):
        return len(s) > 0 and all(is_in(c, chars) for c in chs(s))
    return f


def S_isupper(s):
    any_ = False
    for c in chs(s):
        if is_in(c, LOWER):
            return False
        any_ = is_in(c, UPPER) or any_
    return any_


def S_islower(s):
    any_ = False
    for c in chs(s):
        if is_in(c, UPPER):
            return False
        any_ = is_in(c, LOWER) or any_
    return any_


def S_isidentifier(s):
    x = chs(s)
    return len(x) > 0 and is_in(x[0], LOWER + UPPER + '_') and all(is_in(c, LOWER + UPPER + '_' + DIGITS) for c in x[1:])


def S_join(s, it):
    out = []
    for i, p in enumerate(it):
        if not isinstance(p, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(p).__name__))
        if i:
            out += chs(s)
        out += chs(p)
    return mk(out)


def S_ljust(s, n, c=' '):
    return mk(chs(s) + chs(c) * max(0, n - len(s)))


def S_rjust(s, n, c=' '):
    return mk(chs(c) * max(0, n - len(s)) + chs(s))


def S_center(s, n, c=' '):
    k = max(0, n - len(s))
    a = k // 2 + (k & n & 1)
    return mk(chs(c) * a + chs(s) + chs(c) * (k - a))


def S_zfill(s, n):
    x = chs(s)
    k = max(0, n - len(x))
    if x and is_in(x[0], '+-'):
        return mk(x[:1] + ['0'] * k + x[1:])
    return mk(['0'] * k + x)


def S_capitalize(s):
    return _map(str.upper)(s[:1]) + _map(str.lower)(s[1:])


def S_title(s):
    out, start = [], True
    for c in chs(s):
        out.append((c.map(str.upper if start else str.lower)) if isinstance(c, SymCh) else (c.upper() if start else c.lower()))
        start = not is_in(c, LOWER + UPPER)
    return mk(out)


def S_removeprefix(s, p):
    return s[len(p):] if S_startswith(s, p) else s


def S_removesuffix(s, p):
    return s[:len(s) - len(p)] if len(p) and S_endswith(s, p) else s


def S_expandtabs(s, n=8):
    out, col = [], 0
    for c in chs(s):
        if is_in(c, '\t'):
            k = n - col % n
            out += [' '] * k
            col += k
        else:
            out.append(c)
            col = 0 if is_in(c, '\n\r') else col + 1
    return mk(out)


def S_translate(s, table):
    out = []
    for c in chs(s):
        if isinstance(c, str):
            out += chs(c.translate(table))
            continue
        dele = [x for x in c.dom if x.translate(table) == '']
        if dele and is_in(c, dele):
            continue
        out.append(SymCh(c.bv, c.dom - frozenset(dele)).map(lambda x: x.translate(table)))
    return mk(out)


def fmt(v, spec):
    """format(v, spec) for a symbolic string."""
    if not spec:
        return v
    import re
    m = re.match(r'^(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?$', str(spec))
    if not m:
        raise Inconclusive("format specification %s of a symbolic string" % spec)
    if m.group(4):
        v = v[:int(m.group(4))]
    n = int(m.group(3) or 0)
    f = {'<': S_ljust, '>': S_rjust, '^': S_center, None: S_ljust}[m.group(2)]
    return f(v, n, m.group(1) or ' ')


def show(v, conv=None):
    if conv in ('r', 114):
        return mk(["'"] + chs(v) + ["'"]) if type(v) is SymStr else repr_(v)
    if type(v) is SymStr:
        return v
    if isinstance(v, SymInt):
        return str(concretize_int(v))
    if isinstance(v, (list, tuple, dict, set)) and deep(v):
        return repr_(v)
    return str(v)


def repr_(v):
    if type(v) is SymStr:
        return mk(["'"] + v.ch + ["'"])
    if isinstance(v, SymInt):
        return str(concretize_int(v))
    if isinstance(v, (list, tuple)) and deep(v):
        o = S_join(', ', [repr_(x) for x in v])
        return '[' + o + ']' if isinstance(v, list) else '(' + o + (',)' if len(v) == 1 else ')')
    if isinstance(v, dict) and deep(v):
        return '{' + S_join(', ', [repr_(k) + ': ' + repr_(x) for k, x in v.items()]) + '}'
    return repr(v)


def format1(v, conv, spec):
    if conv in ('r', 114) or conv in ('a', 97):
        v = repr_(v)
    elif conv in ('s', 115):
        v = show(v)
    if type(v) is SymStr:
        return fmt(v, spec)
    if isinstance(v, SymInt):
        v = concretize_int(v)
    if isinstance(v, (list, tuple, dict)) and deep(v) and not spec:
        return repr_(v)
    return format(v, spec)


def S_format(s, /, *a, **k):
    s = concretize(s)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out += chs(lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = a[first] if isinstance(first, int) else k[first]
        for isattr, x in rest:
            v = getattr(v, x) if isattr else v[x]
        if spec and '{' in spec:
            spec = S_format(spec, *a[auto:], **k)
            auto += 1
        out += chs(format1(v, conv, spec))
    return mk(out)


def percent(s, a):
    import re
    s = concretize(s)
    out = []
    args = list(a) if isinstance(a, tuple) else [a]
    i = 0
    pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-0 +#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', s):
        out += list(s[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = a[m.group(1)]
        else:
            v = args[i]
            i += 1
        if deep(v) or isinstance(v, (SymStr, SymInt)):
            if isinstance(v, SymInt) or m.group(5) not in 'sr':
                v = concretize_int(v)
                out += list(('%' + (m.group(2) or '') + (m.group(3) or '') + m.group(5)) % v)
                continue
            t = repr_(v) if m.group(5) == 'r' else show(v)
            n = int(m.group(3) or 0)
            out += chs(S_ljust(t, n) if '-' in m.group(2) else S_rjust(t, n))
        else:
            f = '%' + m.group(2) + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + m.group(5)
            out += list(f % (v,))
    out += list(s[pos:])
    return mk(out)


METHODS = dict(find=S_find, rfind=S_rfind, index=S_index, rindex=S_rindex, count=S_count, startswith=S_startswith, endswith=S_endswith,
               replace=S_replace, strip=S_strip, lstrip=S_lstrip, rstrip=S_rstrip, split=S_split, rsplit=S_rsplit, partition=S_partition,
               rpartition=S_rpartition, splitlines=S_splitlines, lower=_map(str.lower), upper=_map(str.upper), casefold=_map(str.lower),
               swapcase=_map(str.swapcase), isdigit=_all(DIGITS), isdecimal=_all(DIGITS), isnumeric=_all(DIGITS), isalpha=_all(LOWER + UPPER),
               isalnum=_all(LOWER + UPPER + DIGITS), isspace=_all(SPACES), isupper=S_isupper, islower=S_islower, isidentifier=S_isidentifier,
               join=S_join, ljust=S_ljust, rjust=S_rjust, center=S_center, zfill=S_zfill, capitalize=S_capitalize, title=S_title,
               removeprefix=S_removeprefix, removesuffix=S_removesuffix, expandtabs=S_expandtabs, translate=S_translate, format=S_format,
               isascii=lambda s: True, isprintable=lambda s: all(is_in(c, [chr(i) for i in range(32, 127)]) for c in chs(s)))


def _bind(n, f):
    def m(self, *a, **k):
        return f(self, *a, **k)
    m.__name__ = n
    return m


for _n, _f in METHODS.items():
    setattr(SymStr, _n, _bind(_n, _f))
for _n in ('encode', 'format_map', 'istitle'):
    def _no(self, *a, _n=_n, **k):
        return getattr(concretize(self), _n)(*a, **k)
    setattr(SymStr, _n, _no)


# ------------------------------------------------------------------ integers
class SymInt(int):

    def __new__(cls, e):
        o = int.__new__(cls, 0)
        o.e = e
        return o

    def __hash__(self):
        return hash(concretize_int(self))

    def __bool__(self):
        return ask(self.e != 0)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return self

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    __str__ = __repr__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))


def iexpr(x):
    return x.e if isinstance(x, SymInt) else z3.IntVal(int(x))


def _iop(n, f, rev=False):
    def m(self, o):
        if not isinstance(o, int):
            return NotImplemented
        a, b = iexpr(self), iexpr(o)
        r = f(b, a) if rev else f(a, b)
        if z3.is_bool(r):
            return ask(r)
        return SymInt(r)
    m.__name__ = n
    setattr(SymInt, n, m)


for _n, _f in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b)):
    _iop('__%s__' % _n, _f)
    _iop('__r%s__' % _n, _f, True)
for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
               ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b)):
    _iop('__%s__' % _n, _f)


def concretize_int(x):
    return cur().concretize(x.e) if isinstance(x, SymInt) else x


def integer(name, lo, hi):
    return SymInt(cur().int(name, lo, hi))


def deep(v, d=3):
    """Does v hold a symbolic value?"""
    t = type(v)
    if t is SymStr or t is SymInt or t is SymFloat:
        return True
    if d and t in (list, tuple, set, frozenset):
        return any(deep(x, d - 1) for x in v)
    if d and t is dict:
        return any(deep(x, d - 1) for x in v.values()) or any(type(x) is SymStr for x in v)
    return False


def to_int(s, base=10):
    """int(s) of a symbolic string."""
    x = chs(S_strip(s))
    neg = False
    if base != 10:
        return int(concretize(s), base)
    if x and is_in(x[0], '+-'):
        neg = is_in(x[0], '-')
        x = x[1:]
    val = None
    total = z3.IntVal(0)
    us = True
    for c in x:
        if not us and is_in(c, '_'):
            us = True
            continue
        if not is_in(c, DIGITS):
            raise ValueError("invalid literal for int() with base 10: symbolic")
        us = False
        d = z3.IntVal(ord(c) - 48) if isinstance(c, str) else z3.BV2Int(c.bv) - 48
        total = total * 10 + d
    if us:
        raise ValueError("invalid literal for int() with base 10: symbolic")
    total = z3.simplify(-total if neg else total)
    return total.as_long() if z3.is_int_value(total) else SymInt(total)


class SymFloat(float):
    """A real number known as a z3 term."""
    def __new__(cls, e):
        o = float.__new__(cls, 0.0)
        o.e = e
        return o

    def __bool__(self):
        return ask(self.e != 0)

    def __repr__(self):
        return '<number>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<number>'

    def __neg__(self):
        return SymFloat(-self.e)

    def __hash__(self):
        raise Inconclusive("hash of a symbolic number")


def rexpr(x):
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal(f)


def _fop(n, f):
    def m(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        if isinstance(o, float) and not isinstance(o, SymFloat) and (o != o or o in (float('inf'), float('-inf'))):
            return getattr(0.0, n)(o)
        r = f(rexpr(self), rexpr(o))
        return ask(r) if z3.is_bool(r) else SymFloat(r)
    m.__name__ = n
    setattr(SymFloat, n, m)


for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
               ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b),
               ('mul', lambda a, b: a * b), ('radd', lambda a, b: a + b), ('rmul', lambda a, b: a * b)):
    _fop('__%s__' % _n, _f)


def to_float(s):
    """float(s) of a symbolic string (decimal notation, inf/nan, underscores between digits)."""
    bad = ValueError("could not convert string to float: symbolic")
    x = chs(S_strip(s))
    i = 0
    neg = False
    if i < len(x) and is_in(x[i], '+-'):
        neg = is_in(x[i], '-')
        i += 1
    rest = mk(x[i:])
    low = METHODS['lower'](rest)
    for w in ('inf', 'nan', 'infinity'):
        if len(low) == len(w) and at(low, 0, w):
            return float(('-' if neg else '') + w)
    dig = []

    def digits(i):
        n = 0
        while i < len(x):
            if is_in(x[i], DIGITS):
                dig.append(x[i])
                n += 1
                i += 1
            elif n and is_in(x[i], '_') and i + 1 < len(x) and is_in(x[i + 1], DIGITS):
                i += 1
            else:
                break
        return n, i
    n, i = digits(i)
    frac = 0
    if i < len(x) and is_in(x[i], '.'):
        frac, i = digits(i + 1)
        n += frac
    if n == 0:
        raise bad
    total = z3.IntVal(0)
    for c in dig:
        total = total * 10 + (ord(c) - 48 if isinstance(c, str) else z3.BV2Int(c.bv) - 48)
    ex = 0
    if i < len(x) and is_in(x[i], 'eE'):
        i += 1
        eneg = False
        if i < len(x) and is_in(x[i], '+-'):
            eneg = is_in(x[i], '-')
            i += 1
        b = len(dig)
        m, i = digits(i)
        if m == 0:
            raise bad
        ex = int(concretize(mk(dig[b:])))
        ex = -ex if eneg else ex
    if i != len(x):
        raise bad
    e = z3.ToReal(total)
    k = ex - frac
    e = z3.simplify(e * 10 ** k if k >= 0 else e / 10 ** (-k))
    e = z3.simplify(-e) if neg else e
    if z3.is_rational_value(e):
        return float(e.as_fraction())
    return SymFloat(e)
