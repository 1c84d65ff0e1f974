"""P25: activity conditions keep their meaning when translated to local names."""
import z3
from vt.pysym.check import Harness, module, outcome, main as pmain, mk
from vt.pysym.sym import same, chs, ask, char, concretize
from vt.engine import cur

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGITS = '0123456789'
WORDC = LETTERS + DIGITS + '_'
DOTTED = ('eqv', 'neqv', 'true', 'false', 'lt', 'le', 'eq', 'ge', 'gt', 'ne', 'not', 'and', 'or')
# standard name -> (local name, type); local names coincide with other standard names and contain each other
VARS = {'p': ('q', 'logical'), 'q': ('p', 'logical'), 'pq': ('p_q', 'logical'), 'p_q': ('pq', 'logical'), 'n': ('nn', 'integer'), 'nn': ('n', 'integer'),
        'num_x': ('ix(3)', 'integer'), 'not': ('lnot', 'logical')}


def is_(c, chars):
    return c in chars if isinstance(c, str) else ask(c.cond(chars))


def lexemes(s):
    """('word'|'num'|'op'|'blank', chars): maximal runs of word characters, dotted words and single other characters."""
    out, i, x = [], 0, chs(s)
    while i < len(x):
        if is_(x[i], WORDC):
            j = i
            while j < len(x) and is_(x[j], WORDC):
                j += 1
            out.append(('num' if is_(x[i], DIGITS) else 'word', x[i:j]))
        elif is_(x[i], '.'):
            j = i + 1
            while j < len(x) and is_(x[j], LETTERS):
                j += 1
            if j > i + 1 and j < len(x) and is_(x[j], '.') and len(x[i + 1:j]) in map(len, DOTTED) and \
               any(len(w) == j - i - 1 and all(is_(c, d + d.upper()) for c, d in zip(x[i + 1:j], w)) for w in DOTTED):
                j += 1
            else:
                j = i + 1
            out.append(('op', x[i:j]))
        else:
            j = i + 1
            out.append(('blank' if is_(x[i], ' ') else 'op', x[i:j]))
        i = j
    return out


def target(w):
    for std, (loc, _) in VARS.items():
        if len(std) == len(w) and all(is_(c, d + d.upper()) for c, d in zip(w, std)):
            return loc
    return None


def squeeze(s):
    return [c for c in chs(s) if not is_(c, ' ')]


def meaning(text):
    """z3 value of a Fortran logical expression over the local names, or None."""
    from vt.fort.parser import P, lex
    loc = {l: z3.Bool('v_' + l) if t == 'logical' else z3.Int('v_' + l) for l, t in VARS.values()}

    def num(e):
        k = e[0]
        if k == 'int':
            return z3.IntVal(e[1])
        if k == 'name':
            return loc[e[1].lower()] if z3.is_int(loc[e[1].lower()]) else bad(k)
        if k == 'index' and e[1:] == (('name', 'ix'), [('int', 3, None)]):
            return loc['ix(3)']
        if k == 'paren':
            return num(e[1])
        if k == 'un' and e[1] == '-':
            return -num(e[2])
        if k == 'bin' and e[1] in '+-*':
            a, b = num(e[2]), num(e[3])
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[e[1]]()
        raise KeyError(k)

    def bad(k):
        raise KeyError(k)

    def ev(e):
        k = e[0]
        if k == 'log':
            return z3.BoolVal(e[1])
        if k == 'name':
            return loc[e[1].lower()] if z3.is_bool(loc[e[1].lower()]) else bad(k)
        if k == 'paren':
            return ev(e[1])
        if k == 'un' and e[1] == '.not.':
            return z3.Not(ev(e[2]))
        if k == 'bin' and e[1] in ('.and.', '.or.', '.eqv.', '.neqv.'):
            a, b = ev(e[2]), ev(e[3])
            return {'.and.': lambda: z3.And(a, b), '.or.': lambda: z3.Or(a, b), '.eqv.': lambda: a == b, '.neqv.': lambda: a != b}[e[1]]()
        if k == 'bin' and e[1] in ('==', '/=', '<', '<=', '>', '>='):
            a, b = num(e[2]), num(e[3])
            return {'==': lambda: a == b, '/=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[e[1]]()
        raise KeyError(k)
    try:
        p = P(lex(text))
        v = ev(p.expr())
        return v if p.i == len(p.t) else None
    except Exception:
        return None


class Condition(Harness):
    functions = ['metavar.Var.conditional', 'fortran_conditional.FORTRAN_CONDITIONAL_REGEX', 'VarDictionary.find_variable']
    budget = 800

    def __init__(self, quick, thorough, alphabet, bounds):
        self.q, self.t, self.alphabet, self.bounds = quick, thorough, alphabet, bounds

    def cases(self, tier):
        return self.q if tier == 'quick' else self.q + self.t

    def inputs(self, case, eng):
        return dict(active=mk([char('c%d' % j, self.alphabet) if c == '?' else c for j, c in enumerate(case)]))

    def dicts(self):
        m = module('metavar')
        from checks.P11 import env
        out = []
        names = list(VARS.items())
        for i, part in enumerate((names[:4], names[4:])):     # looked for in several dictionaries
            vs = [m.Var(dict(local_name=l, standard_name=s, units='1', dimensions='()', type=t), m.ParseSource('vname', 'host', m.ParseContext()), env()) for s, (l, t) in part]
            out.append(m.VarDictionary('d%d' % i, env(), variables=vs))
        return out

    def agree(self, case, inp):
        m = module('metavar')
        from checks.P11 import env
        s = inp['active']
        x = chs(s)
        if is_(x[0], ' ') or is_(x[-1], ' '):
            return []
        v = m.Var(dict(local_name='var', standard_name='the_var', units='1', dimensions='()', type='real', active='.true.'), m.ParseSource('vname', 'host', m.ParseContext()), env())
        v._prop_dict['active'] = s
        lx = lexemes(s)
        want, unknown, plain, used = [], False, True, []
        for k, w in lx:
            if k == 'word':
                t = target(w)
                if t is None:
                    unknown = True
                    break
                used.append(t)
                want += list(t)
            else:
                if k == 'num' and not all(is_(c, DIGITS) for c in w) or k == 'op' and len(w) == 1 and not is_(w[0], '()=/<>+-*'):
                    plain = False
                if k != 'blank':
                    want += w
        o = outcome(v.conditional, self.dicts())
        if unknown:
            return [(not o.ok, 'a condition with an unknown name is accepted')]
        if not o.ok:
            # only well-formed expressions have to be accepted
            if not plain:
                return []
            return [(meaning(str(concretize(mk(want)))) is None, 'a valid condition is rejected (%s)' % o.exc)]
        got, needed = o.val
        out = []
        g = squeeze(got)
        if len(g) != len(want) or not ask(same(mk(g), mk(want))):
            a, b = meaning(str(concretize(mk(want)))), meaning(str(concretize(got)))
            out.append((a is None or (b is not None and self.valid(a == b)), 'the condition changes its meaning'))
            if a is None:     # not a Fortran condition: it must not turn into one
                out.append((b is None, 'a malformed condition becomes another, valid one'))
        else:
            out.append((True, 'same condition'))
        names = sorted({x.get_prop_value('local_name') for x in needed})
        out.append((names == sorted(set(used)), 'the variables needed for a condition'))
        return out

    @staticmethod
    def valid(f):
        s = z3.Solver()
        s.add(z3.Not(f))
        return s.check() == z3.unsat


OPS = "()=/<>+-*.,%' pn1"
TEMPL = ['n??1', 'n??n', 'p ??? q', 'n ?? 1', 'p.???.q', 'p .??? q', '.???.p', 'p?', 'p??', '?p', '??n==1', 'n==??', 'n == ?1', 'n/=1?n', '(?.and.p_q)', 'num_x??3.or.pq', 'nn?=n',
         '.not.?p', '.not. (p??q)', 'n .ge. ?1 .and. p', 'n==1??', '.true??', 'n>?n', '???', 'num_x == 1?2']
TEMPL_T = ['????', 'p .???? q', 'p??????q', 'n?????n', 'n ???? n .or. p', 'n==???1']
WORDS = ['???', 'p_?', 'num_?', '?um_x==1', 'p.and.??', '.?ot.p', 'p.?nd.q', 'p.an?.q', 'n.?t.nn', 'n.g?.1', 'p.eq?.q', 'p.neq?.q', 'not.and.p??', 'n??==1', 'not?', 'p.or.no?', 'n==1??', '.FAL?E.', '.tru?.']
HARNESSES = dict(operators=Condition(TEMPL, TEMPL_T, OPS, 'templates of conditions with up to 4 (thorough 6) free characters out of operators, digits, blanks and names'),
                 words=Condition(WORDS, ['?????', 'p.???.p', 'n.???.n'], 'pqnumxotaderlsPNO_12', 'names and dotted operators with up to 3 (thorough 5) free letters, digits and underscores'))


def main(tier, only=None):
    return pmain('P25', tier, 'model_checking', ['the translated text is judged token by token, and by its truth value for all values of the variables where it differs'], [], ['eight host variables in two dictionaries whose names contain each other'], only)
