"""P18: scheme entry points are recognised by phase suffix, in all documented spellings."""
from vt.pysym.check import Harness, module, outcome, main as pmain, mk
from vt.pysym.sym import same, chs, ask, char, text
from vt.pysym.grammar import accepts, Word, IDENT, Seq, conj, neg, disj, iff

# the documented spellings (doc of the state machine and the CCPP documentation), longest first
SUFFIXES = [('timestep_initialize', 'timestep_initial'), ('timestep_finalize', 'timestep_final'), ('timestep_initial', 'timestep_initial'),
            ('timestep_final', 'timestep_final'), ('timestep_init', 'timestep_initial'), ('initialize', 'initialize'), ('register', 'register'),
            ('finalize', 'finalize'), ('initial', 'initialize'), ('final', 'finalize'), ('init', 'initialize'), ('run', 'run')]
NAMEC = 'abefgilmnoprstuzABEFGILMNOPRSTUZ0_9'
STATES = {'register': ('uninitialized', 'uninitialized'), 'initialize': ('uninitialized', 'initialized'),
          'timestep_initial': ('initialized', 'in_time_step'), 'run': ('in_time_step', 'in_time_step'),
          'timestep_final': ('in_time_step', 'initialized'), 'finalize': ('initialized', 'uninitialized')}


def machine():
    return module('ccpp_state_machine').CCPP_STATE_MACH


def split(s):
    """(scheme name, suffix, phase) or three None; forks only on whether a suffix matches."""
    x = chs(s)
    for w, ph in SUFFIXES:
        k = len(x) - len(w) - 1
        if k < 1:
            continue
        if ask(conj(accepts(Word('_' + w, True), mk(x[k:])), accepts(IDENT, mk(x[:k])))):
            return mk(x[:k]), mk(x[k + 1:]), ph
    return None, None, None


def sym(tmpl, alphabet, eng):
    """? a free character; letters in either case; | ends the part in either case."""
    out = []
    for j, c in enumerate(tmpl):
        if c == '?':
            out.append(char('c%d' % j, alphabet))
        elif c.isalpha():
            out.append(char('c%d' % j, c + c.upper()))
        else:
            out.append(c)
    return mk(out)


class Name(Harness):
    functions = ['state_machine.StateMachine.function_match', 'state_machine.StateMachine.__init__', 'state_machine.StateMachine.__setitem__',
                 'state_machine.StateMachine.transitions', 'ccpp_state_machine.CCPP_STATE_MACH']
    budget = 800

    def __init__(self, templates, thorough, alphabet, bounds):
        self.q, self.t, self.alphabet, self.bounds = templates, thorough, alphabet, bounds

    def cases(self, tier):
        return [dict(t=t, trans=tr) for t in (self.q if tier == 'quick' else self.q + self.t) for tr in (False, True)]

    def inputs(self, case, eng):
        trans = None
        if case['trans']:
            trans = eng.pick(sorted(STATES))
        return dict(name=sym(case['t'], self.alphabet, eng), trans=trans)

    def agree(self, case, inp):
        s, tr = inp['name'], inp['trans']
        m = machine()
        o = outcome(m.function_match, s, tr) if tr else outcome(m.function_match, s)
        if not o.ok:
            return [(False, 'matching a name fails (%s)' % o.exc)]
        fid, tid, phase = o.val
        wf, wt, wp = split(s)
        if tr is not None and wp is not None and wp != tr:
            # asked for one phase only: an entry point of another phase may match by its shorter suffix
            short = [(w, p) for w, p in SUFFIXES if p == tr and len(w) < len(wt)]
            x = chs(s)
            wf = wt = wp = None
            for w, p in short:
                k = len(x) - len(w) - 1
                if k >= 1 and ask(conj(accepts(Word('_' + w, True), mk(x[k:])), accepts(IDENT, mk(x[:k])))):
                    wf, wt, wp = mk(x[:k]), mk(x[k + 1:]), p
                    break
        if (phase is None) != (wp is None):
            return [(False, 'an entry point is not recognised' if phase is None else 'a name without phase suffix is taken for an entry point')]
        if phase is None:
            return [(fid is None and tid is None, 'parts of a name without phase')]
        return [(phase == wp, 'the phase of an entry point'), (same(fid, wf) if len(fid) == len(wf) else False, 'the scheme name of an entry point'),
                (same(tid, wt) if len(tid) == len(wt) else False, 'the phase suffix of an entry point')]


class Tag(Harness):
    """transition_match: a phase tag alone."""
    functions = ['state_machine.StateMachine.transition_match']
    bounds = 'every text of 1-5 (thorough 7) characters over the letters of the suffixes and every suffix with one changed or added character'

    def cases(self, tier):
        return ['?' * n for n in range(1, 6 if tier == 'quick' else 8)] + [w for w, _ in SUFFIXES] + [w + '?' for w, _ in SUFFIXES] \
            + ['?' + w[1:] for w, _ in SUFFIXES] + [w[:-1] + '?' for w, _ in SUFFIXES]

    def inputs(self, case, eng):
        return dict(name=sym(case, NAMEC, eng))

    def agree(self, case, inp):
        s = inp['name']
        o = outcome(machine().transition_match, s)
        if not o.ok:
            return [(False, 'matching a tag fails (%s)' % o.exc)]
        want = None
        for w, p in SUFFIXES:
            if len(s) == len(w) and ask(accepts(Word(w, True), s)):
                want = p
        return [(o.val == want, 'the phase of a tag')]


class States(Harness):
    functions = ['state_machine.StateMachine.initial_state', 'state_machine.StateMachine.final_state', 'state_machine.StateMachine.transitions']
    bounds = 'the six phases'

    def agree(self, case, inp):
        m = machine()
        return [(sorted(m.transitions()) == sorted(STATES), 'the phases')] + \
               [((m.initial_state(p), m.final_state(p)) == st, 'the states around %s' % p) for p, st in STATES.items()]


TEMPLATES = ['??_' + w for w, _ in SUFFIXES] + ['?_' + w + '?' for w, _ in SUFFIXES] + ['a_' + w[:-1] + '?' for w, _ in SUFFIXES] + \
    ['a?' + w for w, _ in SUFFIXES] + ['a_?' + w[1:] for w, _ in SUFFIXES] + ['a_' + w[:4] + '?' + w[4:] for w, _ in SUFFIXES if len(w) > 4] + \
    ['timestep_' + w for w in ('run', 'register', 'init', 'final')] + ['run_init', 'init_run', 'a_init_final', 'a_run_run', 'init_initial', 'a_timestep_init_run',
                                                                     'a_init_timestep_final', 'timestep_timestep_init', '?_timestep_?nit', 'a_timestep?init', '_init', '?init', 'final_final', '??????', '??_???']
HARNESSES = dict(names=Name(TEMPLATES, ['????_' + w for w, _ in SUFFIXES] + ['???????', '???_????', '????_???'], NAMEC,
                            'every suffix in every mixture of cases after 2 (thorough 4) free characters, with one character changed, added or missing; combined suffixes; every name of 6 (thorough 7) characters'),
                 tags=Tag(), states=States())


def main(tier, only=None):
    return pmain('P18', tier, 'model_checking', ['names over letters, digits and underscore'], [], ['alphabet: the letters of the suffixes and a few others in both cases, digits, underscore'], only)
