"""Path explorer over z3.

A harness is a Python function run again and again, once per feasible path.  Whenever it needs the truth value of a
symbolic condition it calls branch(); the explorer asks z3 which outcomes the path condition allows and explores
all of them (depth first, by re-execution with a recorded decision stack).  check() asks z3 whether an assertion can fail on the
current path: unsat discharges it for every value, sat yields a counterexample.
"""
import time
import z3


class Infeasible(BaseException):
    """Current path is infeasible (assume failed)."""


class Inconclusive(Exception):
    """The machinery cannot decide (unknown from the solver, unsupported construct, bound exceeded)."""


class Counterexample(BaseException):
    """Raised by check() when the solver finds values that break an assertion."""
    def __init__(self, label, model, detail=None, neg=None):
        super().__init__(label)
        self.neg = neg
        self.label = label
        self.model = model
        self.detail = detail


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.asserts = 0            # assertions discharged (unsat of negation)
        self.asserts_trivial = 0    # assertions that simplified to true
        self.branches = 0
        self.unsat = 0              # queries answered unsat (infeasible branch outcomes and discharged assertions)
        self.max_depth = 0

    def add(self, o):
        for k in ("paths", "queries", "solver_s", "asserts", "asserts_trivial", "branches", "unsat"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.max_depth = max(self.max_depth, o.max_depth)
        return self

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


_cur = None


def cur():
    if _cur is None:
        raise RuntimeError("no engine active")
    return _cur


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class _Entry:
    __slots__ = ("kind", "expr", "value", "rest")

    def __init__(self, kind, expr, value, rest):
        self.kind = kind      # 'b' branch, 'a' assume, 'c' choose
        self.expr = expr      # z3 constraint pushed (or None)
        self.value = value    # value returned to the harness
        self.rest = rest      # list of (expr, value) still to explore


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None, stop_on_first=True):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stack = []
        self.pos = 0
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.model = None
        self.stop_on_first = stop_on_first
        self.cexs = []
        self.inputs = {}
        self.reached = {}
        self._ctr = {}

    # ---------------------------------------------------------------- symbols
    def fresh(self, name):
        n = self._ctr.get(name, 0)
        self._ctr[name] = n + 1
        return name if n == 0 else "%s!%d" % (name, n)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh(name))
        self.inputs[str(v)] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        v = z3.Bool(self.fresh(name))
        self.inputs[str(v)] = v
        return v

    def real(self, name):
        v = z3.Real(self.fresh(name))
        self.inputs[str(v)] = v
        return v

    # ---------------------------------------------------------------- solver access
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: %s" % self.solver.reason_unknown())
        if r == z3.unsat:
            self.stats.unsat += 1
        return r == z3.sat

    def _push(self, kind, expr, value, rest):
        self.stack.append(_Entry(kind, expr, value, rest))
        self.solver.push()
        if expr is not None:
            self.solver.add(expr)
        self.pos += 1
        if self.pos > self.stats.max_depth:
            self.stats.max_depth = self.pos

    def _replay(self, kind):
        e = self.stack[self.pos]
        if e.kind != kind:
            raise Inconclusive("non-deterministic harness (decision kinds differ)")
        self.pos += 1
        return e.value

    def _eval(self, expr):
        """Truth value of expr under the cached model of the path condition, or None."""
        if self.model is None:
            return None
        v = self.model.eval(expr, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---------------------------------------------------------------- harness API
    def branch(self, cond):
        """Concrete truth value of cond on this path; forks when both are possible."""
        if cond is True or cond is False:
            return cond
        if not isinstance(cond, z3.ExprRef):
            return bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.stack):
            return self._replay('b')
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self._push('b', None, True, [])
            return True
        if z3.is_false(cond):
            self._push('b', None, False, [])
            return False
        self.stats.branches += 1
        ncond = z3.Not(cond)
        guess = self._eval(cond)
        if guess is None:
            if self._check(cond):
                self.model = self.solver.model()
                guess = True
            else:
                guess = False
                self._push('b', ncond, False, [])
                self.model = None
                return False
        other = ncond if guess else cond
        if self._check(other):
            self._push('b', cond if guess else ncond, guess, [(other, not guess)])
        else:
            self._push('b', None, guess, [])      # implied, nothing to add
        return guess

    def choose(self, n, label="choice"):
        """Unconstrained choice 0..n-1 (structure of the scenario)."""
        if n <= 1:
            return 0
        if self.pos < len(self.stack):
            return self._replay('c')
        self._push('c', None, 0, [(None, i) for i in range(1, n)])
        return 0

    def pick(self, seq, label="choice"):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def concretize(self, expr, lo=None, hi=None):
        """Fork over every possible value of an integer expression (must be finite under the path condition)."""
        if isinstance(expr, bool) or not isinstance(expr, z3.ExprRef):
            return expr
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_bv_value(expr):
            return expr.as_long()
        n = 0
        while True:
            # ask for a candidate value (deterministic replay: stored in the stack)
            if self.pos < len(self.stack):
                val = self._replay('v')
            else:
                if self.model is None:
                    if not self._check():
                        raise Infeasible()
                    self.model = self.solver.model()
                val = self.model.eval(expr, model_completion=True).as_long()
                self._push('v', None, val, [])
            if self.branch(expr == val):
                return val
            n += 1
            if n > 4096:
                raise Inconclusive("concretize: unbounded expression %s" % expr)

    def assume(self, cond):
        if cond is True or (isinstance(cond, z3.ExprRef) and z3.is_true(cond)):
            return
        if self.pos < len(self.stack):
            self._replay('a')
            return
        if cond is False:
            raise Infeasible()
        ok = self._eval(cond)
        self._push('a', cond, None, [])
        if not ok:
            self.model = None
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()

    def feasible(self, cond):
        """Is cond possible on this path (no fork)?"""
        if isinstance(cond, bool):
            return cond
        if self._eval(cond) is True:
            return True
        return self._check(cond)

    def check(self, cond, label, detail=None):
        """Assertion: must hold for every value on this path."""
        if isinstance(cond, bool):
            if cond:
                self.stats.asserts_trivial += 1
                return
            if self.model is None or True:
                if not self._check():
                    raise Infeasible()
                self.model = self.solver.model()
            raise Counterexample(label, self.model, detail)
        if z3.is_true(cond):
            self.stats.asserts_trivial += 1
            return
        neg = z3.Not(cond)
        if self._check(neg):
            m = self.solver.model()
            raise Counterexample(label, m, detail, neg)
        self.stats.asserts += 1

    def diversify(self, c, values=None):
        """A model of the failing state in which as many inputs as possible have small distinct values (for the replay)."""
        self.solver.push()
        try:
            if c.neg is not None:
                self.solver.add(c.neg)
            wish = []
            for i, (n, v) in enumerate(sorted(self.inputs.items())):
                if isinstance(v, z3.ArithRef):
                    wish.append(v == (values(n, i) if values and values(n, i) is not None else 3 + 7 * i))
            todo = [wish]
            while todo:
                w = todo.pop()
                if not w:
                    continue
                self.solver.push()
                self.solver.add(w)
                if self.solver.check() == z3.sat:
                    self.solver.pop()
                    self.solver.add(w)
                    continue
                self.solver.pop()
                if len(w) > 1:
                    h = len(w) // 2
                    todo.append(w[h:])
                    todo.append(w[:h])
            if self.solver.check() == z3.sat:
                return self.solver.model()
            return c.model
        finally:
            self.solver.pop()

    def reach(self, label):
        """Reachability witness (the path condition is satisfiable here)."""
        self.reached[label] = self.reached.get(label, 0) + 1

    def get_model(self):
        if not self._check():
            raise Infeasible()
        self.model = self.solver.model()
        return self.model

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        """Run fn(self) over all feasible paths.  Returns the list of counterexamples found."""
        global _cur
        prev = _cur
        _cur = self
        try:
            while True:
                self.pos = 0
                self._ctr = {}
                self.inputs = {}
                try:
                    fn(self)
                    self.stats.paths += 1
                except Infeasible:
                    pass
                except Counterexample as c:
                    self.stats.paths += 1
                    c.inputs = self.concrete_inputs(c.model)
                    self.cexs.append(c)
                    if self.stop_on_first:
                        return self.cexs
                if self.stats.paths > self.max_paths:
                    raise Inconclusive("more than %d paths" % self.max_paths)
                if self.deadline is not None and time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted after %d paths" % self.stats.paths)
                if self.pos < len(self.stack) and self.pos != len(self.stack):
                    # harness ended earlier than on the recorded path: drop the unreached part only if deterministic
                    raise Inconclusive("non-deterministic harness (path ended early)")
                if not self._backtrack():
                    return self.cexs
        finally:
            _cur = prev

    def _backtrack(self):
        while self.stack:
            e = self.stack.pop()
            self.solver.pop()
            if e.rest:
                expr, value = e.rest[0]
                ne = _Entry(e.kind, expr, value, e.rest[1:])
                self.stack.append(ne)
                self.solver.push()
                if expr is not None:
                    self.solver.add(expr)
                self.model = None
                return True
        return False

    def concrete_inputs(self, model):
        out = {}
        for n, v in self.inputs.items():
            if isinstance(v, z3.ExprRef):
                out[n] = pyval(model.eval(v, model_completion=True))
            else:
                out[n] = v
        return out


def pyval(v):
    """z3 value -> Python value."""
    if z3.is_int_value(v) or z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_string_value(v):
        return v.as_string()
    return str(v)
