"""Parser for the free-form Fortran subset used by ccpp-framework's library and generated caps."""
import re
from fractions import Fraction


class FParseError(Exception):
    pass


# ------------------------------------------------------------------ source form
def _strip_comment(line, instr):
    """Remove trailing comment.  instr: open quote char carried over a continuation, or ''.
    Returns (text, open quote at end)."""
    out = []
    q = instr
    for c in line:
        if q:
            out.append(c)
            if c == q:
                q = ''
        elif c in "'\"":
            q = c
            out.append(c)
        elif c == '!':
            break
        else:
            out.append(c)
    return ''.join(out), q


def _cpp_eval(expr, defs):
    def repl(m):
        return '1' if m.group(1) in defs else '0'
    e = re.sub(r'defined\s*\(\s*(\w+)\s*\)', repl, expr)
    e = re.sub(r'defined\s+(\w+)', repl, e)
    e = re.sub(r'[A-Za-z_]\w*', lambda m: str(defs.get(m.group(0), 0)), e)
    e = e.replace('&&', ' and ').replace('||', ' or ')
    e = re.sub(r'!(?!=)', ' not ', e)
    return bool(eval(e, {'__builtins__': {}}))


def logical_lines(text, defs=None):
    """List of (lineno, statement text)."""
    defs = dict(defs or {})
    res = []
    stack = []      # [taken_now, any_taken]
    cur = None
    cur_no = 0
    q = ''
    for no, raw in enumerate(text.splitlines(), 1):
        s = raw.strip()
        if s.startswith('#') and cur is None:
            m = re.match(r'#\s*(\w+)\s*(.*)', s)
            if not m:
                continue
            d, rest = m.group(1), m.group(2)
            act = all(x[0] for x in stack)
            if d == 'ifdef':
                v = rest.split()[0] in defs
                stack.append([v, v])
            elif d == 'ifndef':
                v = rest.split()[0] not in defs
                stack.append([v, v])
            elif d == 'if':
                v = _cpp_eval(rest, defs)
                stack.append([v, v])
            elif d == 'elif':
                if stack[-1][1]:
                    stack[-1][0] = False
                else:
                    stack[-1][0] = _cpp_eval(rest, defs)
                    stack[-1][1] = stack[-1][0]
            elif d == 'else':
                stack[-1][0] = not stack[-1][1]
                stack[-1][1] = True
            elif d == 'endif':
                stack.pop()
            elif d == 'define' and act:
                p = rest.split(None, 1)
                defs[p[0]] = p[1] if len(p) > 1 else '1'
            elif d == 'undef' and act:
                defs.pop(rest.split()[0], None)
            continue
        if stack and not all(x[0] for x in stack):
            continue
        if cur is None and not s:
            continue
        if cur is None:
            txt, q = _strip_comment(raw, '')
            txt = txt.strip()
            if not txt:
                continue
            cur_no = no
            if txt.endswith('&'):
                cur = txt[:-1]
                if not q:
                    cur = cur + ' '
            else:
                if q:
                    raise FParseError("line %d: unterminated string" % no)
                res.append((cur_no, txt))
        else:
            if not s or (s.startswith('!') and not q):
                continue
            body = raw
            ls = body.lstrip()
            if ls.startswith('&'):
                body = ls[1:]
                if not q:
                    # token may be joined
                    cur = cur.rstrip() if False else cur
            elif not q:
                body = ls
            txt, q = _strip_comment(body, q)
            t2 = txt.rstrip()
            if t2.endswith('&'):
                cur += t2[:-1]
                if not q:
                    cur += ' '
            else:
                if q:
                    raise FParseError("line %d: unterminated string" % no)
                cur += t2
                res.append((cur_no, cur))
                cur = None
    if cur is not None:
        raise FParseError("file ends within a continued statement")
    out = []
    for no, st in res:
        parts = _split_semi(st)
        for p in parts:
            p = p.strip()
            if p:
                out.append((no, p))
    return out


def _split_semi(s):
    if ';' not in s:
        return [s]
    out = ['']
    q = ''
    for c in s:
        if q:
            out[-1] += c
            if c == q:
                q = ''
        elif c in "'\"":
            q = c
            out[-1] += c
        elif c == ';':
            out.append('')
        else:
            out[-1] += c
    return out


# ------------------------------------------------------------------ lexer
_TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 |(?P<num>(?:\d+\.(?![a-zA-Z]+\.)\d*|\.\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?|\d+[eEdD][+-]?\d+(?:_\w+)?|\d+(?:_\w+)?)
 |(?P<dot>\.[a-zA-Z]+\.)
 |(?P<name>[A-Za-z_]\w*)
 |(?P<op>\*\*|//|==|/=|<=|>=|=>|::|\(/(?!=)|/\)|[-+*/()=<>,:%\[\]&@?])
""", re.X)


def lex(s, no=0):
    pos = 0
    out = []
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m:
            raise FParseError("line %d: cannot tokenise %r in %r" % (no, s[pos:pos + 20], s))
        k = m.lastgroup
        t = m.group()
        pos = m.end()
        if k == 'ws':
            continue
        if k in ('name', 'dot'):
            t = t.lower()
        out.append((k, t))
    return out


_DOTMAP = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


class P:
    """Token stream with expression parser."""
    def __init__(self, toks, no=0, text=''):
        self.t = toks
        self.i = 0
        self.no = no
        self.text = text

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def pv(self, k=0):
        return self.peek(k)[1]

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[0] != 'str' and self.pv() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            self.err("expected %r, found %r" % (v, self.pv()))

    def name(self):
        k, v = self.next()
        if k != 'name':
            self.err("expected a name, found %r" % v)
        return v

    def eof(self):
        return self.i >= len(self.t)

    def err(self, m):
        raise FParseError("line %d: %s in %r" % (self.no, m, self.text))

    # ---- expressions
    def expr(self):
        return self.eqv()

    def eqv(self):
        a = self.orx()
        while self.pv() in ('.eqv.', '.neqv.') and self.peek()[0] == 'dot':
            op = self.next()[1]
            a = ('bin', op, a, self.orx())
        return a

    def orx(self):
        a = self.andx()
        while self.peek() == ('dot', '.or.'):
            self.next()
            a = ('bin', '.or.', a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.peek() == ('dot', '.and.'):
            self.next()
            a = ('bin', '.and.', a, self.notx())
        return a

    def notx(self):
        if self.peek() == ('dot', '.not.'):
            self.next()
            return ('un', '.not.', self.notx())
        return self.cmp()

    def cmp(self):
        a = self.concat()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('==', '/=', '<', '<=', '>', '>='):
                self.next()
                a = ('bin', v, a, self.concat())
            elif k == 'dot' and v in _DOTMAP:
                self.next()
                a = ('bin', _DOTMAP[v], a, self.concat())
            else:
                return a

    def concat(self):
        a = self.add()
        while self.peek() == ('op', '//'):
            self.next()
            a = ('bin', '//', a, self.add())
        return a

    def add(self):
        k, v = self.peek()
        if k == 'op' and v in '+-':
            self.next()
            a = self.mul()
            if v == '-':
                a = ('un', '-', a)
        else:
            a = self.mul()
        while self.peek()[0] == 'op' and self.pv() in ('+', '-'):
            op = self.next()[1]
            a = ('bin', op, a, self.mul())
        return a

    def mul(self):
        a = self.pow()
        while self.peek()[0] == 'op' and self.pv() in ('*', '/'):
            op = self.next()[1]
            a = ('bin', op, a, self.pow())
        return a

    def pow(self):
        a = self.primary()
        if self.peek() == ('op', '**'):
            self.next()
            k, v = self.peek()
            if k == 'op' and v in '+-':
                self.next()
                b = self.pow()
                if v == '-':
                    b = ('un', '-', b)
            else:
                b = self.pow()
            return ('bin', '**', a, b)
        return a

    def primary(self):
        k, v = self.next()
        if k == 'num':
            return self._num(v)
        if k == 'str':
            q = v[0]
            return self._trail(('str', v[1:-1].replace(q + q, q)))
        if k == 'dot':
            if v == '.true.':
                return ('log', True)
            if v == '.false.':
                return ('log', False)
            self.err("unexpected %r" % v)
        if k == 'op' and v == '(':
            e = self.expr()
            if self.accept(','):
                e2 = self.expr()
                self.expect(')')
                return ('cplx', e, e2)
            self.expect(')')
            return self._trail(('paren', e))
        if k == 'op' and v in ('(/', '['):
            end = '/)' if v == '(/' else ']'
            tspec = None
            # optional type-spec ::
            save = self.i
            depth = 0
            j = self.i
            found = False
            while j < len(self.t):
                tv = self.t[j][1] if self.t[j][0] != 'str' else ''
                if tv in ('(', '(/', '['):
                    depth += 1
                elif tv in (')', '/)', ']'):
                    if depth == 0:
                        break
                    depth -= 1
                elif tv == '::' and depth == 0:
                    found = True
                    break
                elif tv == ',' and depth == 0:
                    break
                j += 1
            if found:
                tspec = parse_typespec(self)
                self.expect('::')
            else:
                self.i = save
            items = []
            if not self.accept(end):
                while True:
                    items.append(self.expr())
                    if not self.accept(','):
                        break
                self.expect(end)
            return ('array', items, tspec)
        if k == 'name':
            return self._trail(('name', v))
        self.err("unexpected token %r" % v)

    def _num(self, v):
        kind = None
        if '_' in v:
            v, kind = v.split('_', 1)
            kind = kind.lower()
        if re.fullmatch(r'\d+', v):
            return ('int', int(v), kind)
        vv = v.lower()
        if 'd' in vv:
            kind = 'd'
        vv = vv.replace('d', 'e')
        if vv.startswith('.'):
            vv = '0' + vv
        return ('real', Fraction(vv if not vv.endswith('.') else vv + '0') if 'e' not in vv else _efrac(vv), kind)

    def _trail(self, a):
        while True:
            k, v = self.peek()
            if k == 'op' and v == '(':
                self.next()
                args = self.args()
                a = ('index', a, args)
            elif k == 'op' and v == '%':
                self.next()
                a = ('member', a, self.name())
            else:
                return a

    def args(self):
        """after '(' ; parses until ')'"""
        res = []
        if self.accept(')'):
            return res
        while True:
            res.append(self.arg())
            if self.accept(','):
                continue
            self.expect(')')
            return res

    def arg(self):
        if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
            n = self.name()
            self.next()
            return ('kw', n, self.expr())
        # slice?
        lo = None
        if self.peek() in (('op', ':'), ('op', '::')):
            pass
        elif self.peek() == ('op', '*') and self.pv(1) in (',', ')'):
            self.next()
            return ('star',)
        else:
            lo = self.expr()
        if self.peek() == ('op', '::'):
            self.next()
            return ('slice', lo, None, self.expr())
        if self.accept(':'):
            hi = None
            st = None
            if self.peek() == ('op', '*') and self.pv(1) in (',', ')'):
                self.next()
                return ('slice', lo, ('star',), None)
            if self.pv() not in (',', ')', ':') or self.peek()[0] == 'str':
                hi = self.expr()
            if self.accept(':'):
                st = self.expr()
            return ('slice', lo, hi, st)
        return lo


def _efrac(v):
    m, e = v.split('e')
    if m.endswith('.'):
        m += '0'
    return Fraction(m) * Fraction(10) ** int(e)


# ------------------------------------------------------------------ declarations
class TypeSpec:
    __slots__ = ('base', 'kind', 'len', 'dt', 'poly')

    def __init__(self, base, kind=None, len=None, dt=None, poly=False):
        self.base = base      # integer real logical character type complex procedure
        self.kind = kind      # expr
        self.len = len        # expr | '*' | ':' | None
        self.dt = dt
        self.poly = poly

    def __repr__(self):
        return "TypeSpec(%s,%s,%s,%s%s)" % (self.base, self.kind, self.len, self.dt, ',class' if self.poly else '')


def parse_typespec(p):
    b = p.name()
    if b == 'double':
        p.name()
        return TypeSpec('real', kind=('int', 8, None))
    if b == 'doubleprecision':
        return TypeSpec('real', kind=('int', 8, None))
    if b in ('integer', 'real', 'logical', 'complex'):
        kind = None
        if p.accept('('):
            if p.peek() == ('name', 'kind') and p.peek(1) == ('op', '='):
                p.next()
                p.next()
            kind = p.expr()
            p.expect(')')
        elif p.accept('*'):
            kind = p.primary()
        return TypeSpec(b, kind=kind)
    if b == 'character':
        ln = None
        kind = None
        if p.accept('('):
            while True:
                if p.peek() == ('name', 'len') and p.peek(1) == ('op', '='):
                    p.next()
                    p.next()
                    ln = _charlen(p)
                elif p.peek() == ('name', 'kind') and p.peek(1) == ('op', '='):
                    p.next()
                    p.next()
                    kind = p.expr()
                else:
                    ln = _charlen(p)
                if not p.accept(','):
                    break
            p.expect(')')
        elif p.accept('*'):
            if p.accept('('):
                ln = _charlen(p)
                p.expect(')')
            else:
                ln = p.primary()
        return TypeSpec(b, kind=kind, len=ln)
    if b in ('type', 'class'):
        p.expect('(')
        if p.accept('*'):
            p.expect(')')
            return TypeSpec('type', dt='*', poly=True)
        n = p.name()
        if n in ('real', 'integer', 'logical', 'character', 'complex'):
            p.i -= 1
            ts = parse_typespec(p)
            p.expect(')')
            return ts
        p.expect(')')
        return TypeSpec('type', dt=n, poly=(b == 'class'))
    if b == 'procedure':
        iface = None
        p.expect('(')
        if p.peek()[0] == 'name':
            iface = p.name()
        p.expect(')')
        return TypeSpec('procedure', dt=iface)
    p.err("unknown type %r" % b)


def _charlen(p):
    if p.accept('*'):
        return '*'
    if p.accept(':'):
        return ':'
    return p.expr()


class Decl:
    __slots__ = ('name', 'ts', 'dims', 'attrs', 'intent', 'init', 'pinit', 'no')

    def __init__(self, name, ts, dims, attrs, intent, init, pinit, no):
        self.name = name
        self.ts = ts
        self.dims = dims          # None or list of arg-AST
        self.attrs = attrs        # frozenset
        self.intent = intent
        self.init = init
        self.pinit = pinit        # '=> null()' or target expr
        self.no = no

    def __repr__(self):
        return "Decl(%s %s %s %s %s)" % (self.name, self.ts, self.dims, set(self.attrs), self.intent)


class TypeDef:
    def __init__(self, name, parent=None, abstract=False):
        self.name = name
        self.parent = parent
        self.abstract = abstract
        self.comps = []            # Decls
        self.procs = {}            # bound name -> (impl name, nopass)
        self.generics = {}
        self.finals = []
        self.module = None


class Proc:
    def __init__(self, kind, name):
        self.kind = kind           # 'subroutine' | 'function'
        self.name = name
        self.args = []
        self.result = None
        self.prefix = set()
        self.decls = {}
        self.order = []
        self.uses = []
        self.body = []
        self.procs = {}
        self.types = {}
        self.interfaces = {}
        self.ftype = None
        self.no = 0
        self.params = []
        self.module = None
        self.host = None


class Module:
    def __init__(self, name):
        self.name = name
        self.uses = []
        self.decls = {}
        self.order = []
        self.types = {}
        self.procs = {}
        self.interfaces = {}       # generic name -> [procs]
        self.absifaces = {}        # abstract interface procs
        self.public = set()
        self.private = set()
        self.default_private = False


_TYPE_START = re.compile(r'^(integer|real|logical|complex|character|double\s*precision|type\s*\(|class\s*\(|procedure\s*\()', re.I)
_PREFIX = {'pure', 'elemental', 'impure', 'recursive', 'module', 'non_recursive'}


class FileParser:
    def __init__(self, text, defs=None, fname='?'):
        self.lines = logical_lines(text, defs)
        self.k = 0
        self.fname = fname
        self.modules = {}
        self.procs = {}

    # ---- line access
    def cur(self):
        return self.lines[self.k]

    def more(self):
        return self.k < len(self.lines)

    def parser(self, no, s):
        return P(lex(s, no), no, s)

    def parse(self):
        while self.more():
            no, s = self.cur()
            m = re.match(r'module\s+(\w+)\s*$', s, re.I)
            if m and m.group(1).lower() != 'procedure':
                self.k += 1
                mod = self.parse_module(m.group(1).lower())
                self.modules[mod.name] = mod
                continue
            m = re.match(r'program\s+(\w+)\s*$', s, re.I)
            if m:
                self.k += 1
                pr = Proc('program', m.group(1).lower())
                self.parse_proc_body(pr)
                self.procs[pr.name] = pr
                continue
            pr = self.try_proc_header(no, s)
            if pr is not None:
                self.k += 1
                self.parse_proc_body(pr)
                self.procs[pr.name] = pr
                continue
            raise FParseError("%s:%d: unexpected %r" % (self.fname, no, s))
        return self

    # ---- module
    def parse_module(self, name):
        mod = Module(name)
        while self.more():
            no, s = self.cur()
            low = s.lower()
            if re.match(r'end(\s*module(\s+\w+)?)?\s*$', low):
                self.k += 1
                return mod
            if low.strip() == 'contains':
                self.k += 1
                self.parse_contains(mod)
                continue
            self.parse_spec(mod)
        raise FParseError("%s: module %s not ended" % (self.fname, name))

    def parse_contains(self, owner):
        while self.more():
            no, s = self.cur()
            low = s.lower()
            if re.match(r'end(\s*(module|subroutine|function|program)(\s+\w+)?)?\s*$', low):
                return
            pr = self.try_proc_header(no, s)
            if pr is None:
                raise FParseError("%s:%d: expected a procedure, found %r" % (self.fname, no, s))
            self.k += 1
            pr.module = owner if isinstance(owner, Module) else owner.module
            pr.host = owner
            self.parse_proc_body(pr)
            owner.procs[pr.name] = pr

    def try_proc_header(self, no, s):
        low = s.lower()
        if not re.search(r'\b(subroutine|function)\b', low):
            return None
        if re.match(r'end', low):
            return None
        p = self.parser(no, s)
        prefix = set()
        ts = None
        while True:
            k, v = p.peek()
            if k != 'name':
                return None
            if v in ('subroutine', 'function') and p.peek(1)[0] == 'name':
                break
            if v in _PREFIX:
                prefix.add(v)
                p.next()
                continue
            if ts is None and _TYPE_START.match(' '.join(x[1] for x in p.t[p.i:p.i + 3])):
                try:
                    ts = parse_typespec(p)
                except FParseError:
                    return None
                continue
            return None
        kind = p.name()
        name = p.name()
        pr = Proc(kind, name)
        pr.prefix = prefix
        pr.no = no
        pr.ftype = ts
        if p.accept('('):
            if not p.accept(')'):
                while True:
                    pr.args.append(p.name())
                    if not p.accept(','):
                        break
                p.expect(')')
        while not p.eof():
            w = p.name()
            if w == 'result':
                p.expect('(')
                pr.result = p.name()
                p.expect(')')
            elif w == 'bind':
                p.expect('(')
                while not p.accept(')'):
                    p.next()
            else:
                p.err("unexpected %r" % w)
        if kind == 'function' and pr.result is None:
            pr.result = name
        return pr

    def parse_proc_body(self, pr):
        # specification part
        while self.more():
            no, s = self.cur()
            if not self.parse_spec(pr, maybe=True):
                break
        if pr.ftype is not None and pr.result not in pr.decls:
            d = Decl(pr.result, pr.ftype, None, frozenset(), None, None, None, pr.no)
            pr.decls[pr.result] = d
            pr.order.append(pr.result)
        pr.body = self.parse_block(lambda low: bool(re.match(r'(end(\s*(subroutine|function|program)(\s+\w+)?)?|contains)\s*$', low)))
        no, s = self.cur()
        if s.lower().strip() == 'contains':
            self.k += 1
            self.parse_contains(pr)
        self.k += 1     # end

    # ---- specification statements
    def parse_spec(self, owner, maybe=False):
        no, s = self.cur()
        low = s.lower()
        if low.startswith('use') and re.match(r'use\b', low):
            self.k += 1
            owner.uses.append(self.parse_use(no, s))
            return True
        if re.match(r'(implicit\b|import\b)', low):
            self.k += 1
            return True
        m = re.match(r'(private|public|save|target|external|intrinsic)\b(?!\s*[=(%])', low)
        if m and not re.match(r'\w+\s*=', low):
            self.k += 1
            if isinstance(owner, Module):
                rest = low[m.end():].replace('::', ' ').strip()
                if m.group(1) == 'private':
                    if rest:
                        owner.private.update(x.strip() for x in rest.split(','))
                    else:
                        owner.default_private = True
                elif m.group(1) == 'public' and rest:
                    owner.public.update(x.strip() for x in rest.split(','))
            return True
        if re.match(r'(abstract\s+)?interface\b', low):
            self.parse_interface(owner)
            return True
        if re.match(r'type\b(?!\s*\()', low) and not re.match(r'type\s*=', low):
            m = re.match(r'type\s*(?:,\s*(?P<attrs>.*?))?\s*(?:::)?\s*(?P<name>\w+)\s*$', s, re.I)
            if m and (',' in s or '::' in s or re.match(r'type\s+\w+\s*$', low)):
                self.k += 1
                self.parse_typedef(owner, m)
                return True
        if _TYPE_START.match(low):
            # could be a procedure header (module contains) or an assignment; decide by '::' or decl shape
            if re.match(r'(type|class)\s*\(', low) and '::' not in s and re.match(r'type\s*\(\s*\w+\s*\)\s*=', low):
                return False
            if '::' not in s:
                if self.try_proc_header(no, s) is not None:
                    if maybe:
                        return False
                if re.match(r'^(real|integer|logical|character)\s*\(.*\)\s*=', low):
                    return False
            try:
                ds = self.parse_decl(no, s)
            except FParseError:
                if '::' in s:
                    raise
                return False if maybe else self._spec_err(no, s)
            self.k += 1
            for d in ds:
                owner.decls[d.name] = d
                owner.order.append(d.name)
            return True
        if re.match(r'parameter\s*\(', low):
            p = self.parser(no, s)
            p.next()
            p.expect('(')
            while True:
                n = p.name()
                p.expect('=')
                e = p.expr()
                d = owner.decls[n]
                owner.decls[n] = Decl(n, d.ts, d.dims, d.attrs | {'parameter'}, d.intent, e, None, no)
                if not p.accept(','):
                    break
            self.k += 1
            return True
        if maybe:
            return False
        return self._spec_err(no, s)

    def _spec_err(self, no, s):
        raise FParseError("%s:%d: unsupported specification statement %r" % (self.fname, no, s))

    def parse_use(self, no, s):
        m = re.match(r'use\s*(?:,\s*(?:non_)?intrinsic\s*)?(?:::)?\s*(\w+)\s*(?:,\s*(only\s*:)?\s*(.*))?$', s, re.I)
        if not m:
            raise FParseError("%s:%d: bad use %r" % (self.fname, no, s))
        mod = m.group(1).lower()
        only = m.group(2) is not None
        items = []
        if m.group(3):
            for it in m.group(3).split(','):
                it = it.strip().lower()
                if not it:
                    continue
                if '=>' in it:
                    a, b = it.split('=>')
                    items.append((a.strip(), b.strip()))
                else:
                    items.append((it, it))
        return (mod, only, items)

    def parse_interface(self, owner):
        no, s = self.cur()
        self.k += 1
        m = re.match(r'(abstract\s+)?interface\s*(.*)$', s, re.I)
        abstract = bool(m.group(1))
        gname = m.group(2).strip().lower().replace(' ', '') or None
        procs = []
        while self.more():
            no, s = self.cur()
            low = s.lower()
            if re.match(r'end\s*interface', low):
                self.k += 1
                break
            m = re.match(r'(module\s+)?procedure\s*(?:::)?\s*(.*)$', low)
            if m:
                procs.extend(x.strip() for x in m.group(2).split(','))
                self.k += 1
                continue
            pr = self.try_proc_header(no, s)
            if pr is None:
                raise FParseError("%s:%d: unsupported in interface: %r" % (self.fname, no, s))
            self.k += 1
            self.parse_proc_body(pr)
            if isinstance(owner, Module):
                owner.absifaces[pr.name] = pr
            procs.append(pr.name)
        if gname and not abstract:
            owner.interfaces.setdefault(gname, []).extend(procs)

    def parse_typedef(self, owner, m):
        name = m.group('name').lower()
        attrs = (m.group('attrs') or '').lower()
        td = TypeDef(name)
        mm = re.search(r'extends\s*\(\s*(\w+)\s*\)', attrs)
        if mm:
            td.parent = mm.group(1)
        td.abstract = 'abstract' in attrs
        incontains = False
        while self.more():
            no, s = self.cur()
            low = s.lower()
            self.k += 1
            if re.match(r'end\s*type\b', low):
                break
            if low.strip() == 'contains':
                incontains = True
                continue
            if re.match(r'(private|public|sequence)\s*$', low):
                continue
            if not incontains:
                td.comps.extend(self.parse_decl(no, s))
                continue
            m1 = re.match(r'procedure\s*(\(\s*\w+\s*\))?\s*((?:,\s*[\w()]+\s*)*)(?:::)?\s*(.*)$', low)
            if m1:
                nopass = 'nopass' in (m1.group(2) or '')
                for it in m1.group(3).split(','):
                    it = it.strip()
                    if '=>' in it:
                        a, b = [x.strip() for x in it.split('=>')]
                    else:
                        a = b = it
                    if 'deferred' in (m1.group(2) or ''):
                        b = None
                    td.procs[a] = (b, nopass)
                continue
            m1 = re.match(r'generic\s*(?:,\s*\w+\s*)?::\s*(.*?)\s*=>\s*(.*)$', low)
            if m1:
                g = m1.group(1).replace(' ', '')
                td.generics.setdefault(g, []).extend(x.strip() for x in m1.group(2).split(','))
                continue
            m1 = re.match(r'final\s*(?:::)?\s*(.*)$', low)
            if m1:
                td.finals.extend(x.strip() for x in m1.group(1).split(','))
                continue
            raise FParseError("%s:%d: unsupported in type: %r" % (self.fname, no, s))
        owner.types[name] = td

    def parse_decl(self, no, s):
        p = self.parser(no, s)
        ts = parse_typespec(p)
        attrs = set()
        intent = None
        dims0 = None
        init = None
        while p.accept(','):
            a = p.name()
            if a == 'intent':
                p.expect('(')
                w = p.name()
                if w == 'in' and p.peek() == ('name', 'out'):
                    p.next()
                    w = 'inout'
                intent = w
                p.expect(')')
            elif a == 'dimension':
                p.expect('(')
                dims0 = p.args()
            elif a in ('pass', 'bind'):
                if p.accept('('):
                    while not p.accept(')'):
                        p.next()
            else:
                attrs.add(a)
        hascc = p.accept('::')
        if not hascc and attrs:
            p.err("missing ::")
        out = []
        while True:
            n = p.name()
            dims = dims0
            if p.accept('('):
                dims = p.args()
            ts1 = ts
            if p.accept('*'):
                if p.accept('('):
                    ln = _charlen(p)
                    p.expect(')')
                else:
                    ln = p.primary()
                ts1 = TypeSpec(ts.base, ts.kind, ln, ts.dt, ts.poly)
            init = None
            pinit = None
            if p.accept('=>'):
                pinit = p.expr()
            elif p.accept('='):
                init = p.expr()
            out.append(Decl(n, ts1, dims, frozenset(attrs), intent, init, pinit, no))
            if not p.accept(','):
                break
        if not p.eof():
            p.err("unexpected %r" % p.pv())
        return out

    # ---- executable statements
    def parse_block(self, is_end):
        body = []
        while self.more():
            no, s = self.cur()
            low = s.lower()
            if is_end(low):
                return body
            st = self.parse_stmt()
            if st is not None:
                body.append(st)
        raise FParseError("%s: block not ended" % self.fname)

    def parse_stmt(self):
        no, s = self.cur()
        low = s.lower()
        label = None
        m = re.match(r'(\w+)\s*:\s*(?!:)(do|if|select|associate|block)\b', low)
        if m:
            label = m.group(1)
            s = s[m.end() - len(m.group(2)):]
            low = s.lower()
        # --- if
        if re.match(r'if\s*\(', low):
            p = self.parser(no, s)
            p.next()
            p.expect('(')
            c = p.expr()
            p.expect(')')
            if p.peek() == ('name', 'then') and p.i == len(p.t) - 1:
                self.k += 1
                arms = []
                els = None
                cond = c
                while True:
                    blk = self.parse_block(lambda l: bool(re.match(r'(else\b|elseif\b|end\s*if\b)', l)) and not re.match(r'else\w*\s*=', l))
                    no2, s2 = self.cur()
                    self.k += 1
                    l2 = s2.lower()
                    if cond is not None:
                        arms.append((cond, blk))
                    else:
                        els = blk
                    if re.match(r'end\s*if\b', l2):
                        break
                    m2 = re.match(r'else\s*if\s*\(', l2)
                    if m2:
                        q = self.parser(no2, s2)
                        q.next()
                        if q.peek() == ('name', 'if'):
                            q.next()
                        q.expect('(')
                        cond = q.expr()
                        q.expect(')')
                    else:
                        cond = None
                return ('if', no, arms, els)
            # one-line if
            st = self.simple_stmt(p, no)
            self.k += 1
            return ('if', no, [(c, [st])], None)
        # --- do
        if re.match(r'do\b', low) and not re.match(r'do\w*\s*=', low.split('=')[0] + ('=' if False else '')):
            p = self.parser(no, s)
            p.next()
            self.k += 1
            if p.eof():
                hdr = ('forever',)
            elif p.peek() == ('name', 'while') and p.peek(1) == ('op', '('):
                p.next()
                p.expect('(')
                hdr = ('while', p.expr())
                p.expect(')')
            elif p.peek() == ('name', 'concurrent'):
                p.err("do concurrent not supported")
            else:
                v = p.name()
                p.expect('=')
                lo = p.expr()
                p.expect(',')
                hi = p.expr()
                st = p.expr() if p.accept(',') else None
                hdr = ('count', v, lo, hi, st)
            body = self.parse_block(lambda l: bool(re.match(r'end\s*do\b', l)))
            self.k += 1
            return ('do', no, hdr, body, label)
        # --- select case / type
        m = re.match(r'select\s*case\s*\(', low)
        if m:
            p = self.parser(no, s)
            p.next()
            if p.peek() == ('name', 'case'):
                p.next()
            p.expect('(')
            e = p.expr()
            self.k += 1
            cases = []
            isend = lambda l: bool(re.match(r'(case\s*(\(|default)|end\s*select)', l))
            self.parse_block(isend)
            while True:
                no2, s2 = self.cur()
                l2 = s2.lower()
                self.k += 1
                if re.match(r'end\s*select', l2):
                    break
                if re.match(r'case\s*default', l2):
                    sel = None
                else:
                    q = self.parser(no2, s2)
                    q.next()
                    q.expect('(')
                    sel = q.args()
                cases.append((sel, self.parse_block(isend)))
            return ('select', no, e, cases)
        m = re.match(r'select\s*type\s*\(', low)
        if m:
            p = self.parser(no, s)
            p.next()
            if p.peek() == ('name', 'type'):
                p.next()
            p.expect('(')
            nm = None
            if p.peek()[0] == 'name' and p.peek(1) == ('op', '=>'):
                nm = p.name()
                p.next()
            e = p.expr()
            self.k += 1
            cases = []
            isend = lambda l: bool(re.match(r'(type\s+is\s*\(|class\s+is\s*\(|class\s+default|end\s*select)', l))
            self.parse_block(isend)
            while True:
                no2, s2 = self.cur()
                l2 = s2.lower()
                self.k += 1
                if re.match(r'end\s*select', l2):
                    break
                m2 = re.match(r'(type|class)\s+is\s*\(\s*(.*?)\s*\)\s*$', l2)
                if m2:
                    sel = (m2.group(1), m2.group(2))
                else:
                    sel = None
                cases.append((sel, self.parse_block(isend)))
            return ('selecttype', no, nm, e, cases)
        if re.match(r'associate\s*\(', low):
            p = self.parser(no, s)
            p.next()
            p.expect('(')
            assoc = []
            while True:
                n = p.name()
                p.expect('=>')
                assoc.append((n, p.expr()))
                if not p.accept(','):
                    break
            p.expect(')')
            self.k += 1
            body = self.parse_block(lambda l: bool(re.match(r'end\s*associate', l)))
            self.k += 1
            return ('associate', no, assoc, body)
        if re.match(r'block\s*$', low):
            raise FParseError("%s:%d: block construct not supported" % (self.fname, no))
        if re.match(r'where\s*\(', low):
            p = self.parser(no, s)
            p.next()
            p.expect('(')
            c = p.expr()
            p.expect(')')
            if not p.eof():
                st = self.simple_stmt(p, no)
                self.k += 1
                return ('where', no, [(c, [st])])
            self.k += 1
            arms = []
            cond = c
            while True:
                blk = self.parse_block(lambda l: bool(re.match(r'(else\s*where|end\s*where)', l)))
                no2, s2 = self.cur()
                self.k += 1
                arms.append((cond, blk))
                if re.match(r'end\s*where', s2.lower()):
                    break
                q = self.parser(no2, s2)
                while q.peek() in (('name', 'elsewhere'), ('name', 'else'), ('name', 'where')):
                    q.next()
                if q.accept('('):
                    cond = q.expr()
                    q.expect(')')
                else:
                    cond = None
            return ('where', no, arms)
        # --- simple
        p = self.parser(no, s)
        st = self.simple_stmt(p, no)
        self.k += 1
        return st

    def simple_stmt(self, p, no):
        k, v = p.peek()
        if k == 'num':      # statement label
            p.next()
            k, v = p.peek()
        n1 = p.peek(1)
        if k == 'name' and n1 not in (('op', '='), ('op', '%')):
            if v == 'call':
                p.next()
                e = p.primary()
                if e[0] == 'index':
                    st = ('call', no, e[1], e[2])
                else:
                    st = ('call', no, e, [])
                if not p.eof():
                    p.err("junk after call")
                return st
            if v == 'return' and n1[0] == 'eof':
                return ('return', no)
            if v in ('exit', 'cycle'):
                p.next()
                lab = p.name() if not p.eof() else None
                return (v, no, lab)
            if v == 'continue' and n1[0] == 'eof':
                return ('nop', no)
            if v == 'stop' or (v == 'error' and n1 == ('name', 'stop')):
                return ('stop', no)
            if v == 'nullify':
                p.next()
                p.expect('(')
                return ('nullify', no, p.args())
            if v in ('allocate', 'deallocate') and n1 == ('op', '('):
                p.next()
                p.expect('(')
                if v == 'allocate':
                    # optional type-spec ::
                    ts = None
                    depth = 0
                    for j in range(p.i, len(p.t)):
                        tk, tv = p.t[j]
                        if tk == 'op' and tv == '(':
                            depth += 1
                        elif tk == 'op' and tv == ')':
                            depth -= 1
                            if depth < 0:
                                break
                        elif tk == 'op' and tv == '::' and depth == 0:
                            # name followed by :: => typespec
                            if p.peek()[1] in ('character', 'integer', 'real', 'logical'):
                                ts = parse_typespec(p)
                            else:
                                ts = TypeSpec('type', dt=p.name())
                            p.expect('::')
                            break
                        elif tk == 'op' and tv == ',' and depth == 0:
                            break
                    return ('allocate', no, p.args(), ts)
                return ('deallocate', no, p.args())
            if v == 'write' and n1 == ('op', '('):
                p.next()
                p.expect('(')
                ctl = p.args()
                items = []
                if not p.eof():
                    while True:
                        items.append(p.expr())
                        if not p.accept(','):
                            break
                return ('write', no, ctl, items)
            if v in ('print',):
                return ('nop', no)
            if v in ('flush', 'open', 'close', 'inquire', 'backspace', 'rewind') and n1 == ('op', '('):
                return ('io', no, v)
            if v == 'read' and n1 == ('op', '('):
                return ('io', no, v)
        lhs = p.primary()
        if p.accept('=>'):
            rhs = p.expr()
            st = ('passign', no, lhs, rhs)
        elif p.accept('='):
            rhs = p.expr()
            st = ('assign', no, lhs, rhs)
        else:
            p.err("unsupported statement")
        if not p.eof():
            p.err("junk at end of statement")
        return st


def parse_source(text, defs=None, fname='?'):
    return FileParser(text, defs, fname).parse()
