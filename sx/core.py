"""Path exploration: one Engine per harness, one Path per re-execution.

A path is a sequence of decisions.  Every decision is taken by asking the solver
which outcomes are satisfiable under the constraints collected so far; outcomes not
taken are queued and explored later by re-executing the harness with the recorded
prefix.  When the queue is empty every feasible path has been explored.
"""
from __future__ import annotations

import time

import z3


class PathAbort(BaseException):
    """Ends the current path silently (assumption unsatisfiable)."""


class CheckFailed(BaseException):
    """The negated assertion is satisfiable on this path."""

    def __init__(self, message, model):
        self.message = message
        self.model = model


class Gap(BaseException):
    """The engine cannot represent an operation (never raised silently)."""


class Budget(BaseException):
    """The harness ran out of its time or path budget."""


class Engine:
    def __init__(self, timeout_s=None, max_paths=None, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.timeout_s = timeout_s
        self.max_paths = max_paths
        self.t0 = time.time()
        # statistics
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.assertions = 0
        self.trivial_assertions = 0
        self.concretised = 0
        self.solver_s = 0.0
        self.forks = 0
        self.sched = None
        self.reset([])

    # -- per path ---------------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.decided = {}
        self.keep = []
        self.model = None
        self.smuggled = []
        self.fresh = 0
        self.vars = {}
        self.path_concretised = 0
        self.realized = 0
        self.path_unknown = 0

    def begin(self, prefix):
        self.reset(prefix)
        self.solver.push()

    def end(self):
        self.solver.pop()

    def add(self, cond):
        self.solver.add(cond)

    def declare(self, cond):
        """A constraint on new variables: a model found before them need not satisfy it."""
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None
        self.solver.add(cond)

    def check(self, *assumptions):
        if self.timeout_s is not None and time.time() - self.t0 > self.timeout_s:
            raise Budget()
        self.queries += 1
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
            self.path_unknown += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Gap("solver returned unknown on a path condition")
            self.model = self.solver.model()
        return self.model

    def eval_bool(self, cond):
        m = self.get_model()
        return z3.is_true(m.eval(cond, model_completion=True))

    def assume(self, cond):
        """Add a constraint; abort the path when it is unsatisfiable."""
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        ok = None
        if self.model is not None:
            ok = z3.is_true(self.model.eval(cond, model_completion=True))
        self.add(cond)
        if not ok:
            self.model = None
            if self.pos >= len(self.prefix):
                self.get_model()

    def branch(self, cond):
        """Decide a symbolic boolean; fork when both outcomes are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.decided:
            return self.decided[key]
        self.keep.append(cond)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add(cond if v else z3.Not(cond))
            self.model = None
        else:
            v = self.eval_bool(cond)
            other = z3.Not(cond) if v else cond
            r = self.check(other)
            if r == z3.unsat:
                # implied by the path condition: recorded only so that replays stay aligned
                self.trace.append(v)
                self.decided[key] = v
                return v
            # sat or unknown: the other side is explored later (over-approximation on unknown)
            self.forks += 1
            self.queue.append(self.trace + [not v])
            self.trace.append(v)
            self.add(cond if v else z3.Not(cond))
        self.decided[key] = v
        return v

    def choose(self, n, hints=None):
        """Decide an integer selector in range(n) (structure choice); forks n ways."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return v
        for k in range(n - 1, 0, -1):
            self.queue.append(self.trace + [k])
        self.forks += n - 1
        self.trace.append(0)
        return 0

    def realize(self, expr, limit=3, likely=()):
        """Concretise an integer/boolean term.

        Up to `limit` distinct values are explored, the `likely` ones first; the remaining values
        are dropped and the path is marked concretised (reported in evidence, never silently)."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if z3.is_bool(expr):
            return self.branch(expr)
        key = ("real", expr.get_id())
        if key in self.decided:
            return self.decided[key]
        self.keep.append(expr)
        self.realized += 1
        if likely:
            limit = (limit + len(likely), 9, 3, 1)[min(self.realized - 1, 3)]
        for i in range(limit):
            if self.pos < len(self.prefix):
                kind = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(kind)
                v, taken = kind[1], kind[2]
                self.add(expr == v if taken else expr != v)
                self.model = None
                if taken:
                    break
                continue
            v = None
            for w in likely:
                if self.check(expr == w) == z3.sat:
                    v = w
                    self.model = None
                    break
            if v is None:
                v = self.get_model().eval(expr, model_completion=True).as_long()
            r = self.check(expr != v)
            if r == z3.unsat:
                self.trace.append(("v", v, True))
                break
            if i + 1 < limit:
                self.queue.append(self.trace + [("v", v, False)])
                self.forks += 1
            else:
                self.concretised += 1
                self.path_concretised += 1
            self.trace.append(("v", v, True))
            self.add(expr == v)
            break
        else:
            v = self.get_model().eval(expr, model_completion=True).as_long()
            self.add(expr == v)
            self.concretised += 1
            self.path_concretised += 1
        self.decided[key] = v
        return v

    def require(self, cond, message):
        """Assertion: the solver must show that `cond` holds on this path."""
        self.assertions += 1
        if cond is True:
            self.trivial_assertions += 1
            return
        if cond is False:
            self.last_model = self.get_model()
            raise CheckFailed(message, self.last_model)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.trivial_assertions += 1
            return
        r = self.check(z3.Not(cond))
        if r == z3.unsat:
            return
        if r == z3.sat:
            self.last_model = self.solver.model()
            raise CheckFailed(message, self.last_model)
        raise Gap("solver returned unknown on an assertion: %s" % message)

    def fresh_name(self, tag):
        self.fresh += 1
        return "!%s%d" % (tag, self.fresh)

    # -- exploration ------------------------------------------------------
    def explore(self, run_path):
        """run_path() executes the harness once.  Yields nothing; drives all paths."""
        self.queue = [[]]
        complete = True
        while self.queue:
            if self.max_paths is not None and self.paths >= self.max_paths:
                complete = False
                break
            if self.timeout_s is not None and time.time() - self.t0 > self.timeout_s:
                complete = False
                break
            prefix = self.queue.pop()
            self.begin(prefix)
            try:
                self.paths += 1
                run_path(self)
            except PathAbort:
                self.aborted += 1
            except Budget:
                complete = False
                break
            finally:
                self.end()
        return complete


CUR: "Engine | None" = None


def cur() -> Engine:
    return CUR


def set_current(e):
    global CUR
    CUR = e
