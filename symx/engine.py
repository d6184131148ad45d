"""Path-exploring symbolic executor core (re-execution DFS over an incremental z3 solver).

The program under analysis runs natively in CPython on proxy values (values.py); every branch on a
symbolic condition ends in Engine.decide().  The trace of decisions is replayed on each re-execution and
backtracked depth first, so a completed exploration covers every value of every symbolic input within the
declared ranges.
"""
import os
import time
import random

from . import fastz3  # noqa: F401
import z3


class Control(BaseException):
    """Engine control flow; BaseException so that the code under test cannot swallow it."""


class NeedFork(Control):
    """A speculative (merging) evaluation needed a fork."""


class PathAbort(Control):
    """The current path is infeasible (assumption failed)."""


class Unsupported(Control):
    """An operation the encoding does not model: the path is inconclusive."""


class Budget(Control):
    """Path budget exhausted (concretisation cap, solver unknown): the path is inconclusive."""


class Deadline(Control):
    """Exploration deadline reached."""


class PathTimeout(Control):
    """Wall clock limit for a single path reached (possible non-termination)."""


FORKLOG = {} if os.environ.get("SYMX_FORKS") else None


class _E:
    __slots__ = ("kind", "value", "alt", "alt_model")

    def __init__(self, kind, value=None, alt=False, alt_model=None):
        self.kind = kind
        self.value = value
        self.alt = alt
        self.alt_model = alt_model


class _Local:
    __slots__ = ("script", "dec", "i", "conds")

    def __init__(self, script):
        self.script, self.dec, self.i, self.conds = script, [], 0, []


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


class Engine:
    current = None

    def __init__(self, seed=1, deadline=None, query_timeout_ms=10000, concretize_cap=80, max_paths=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed & 0xFFFF)
        self.rng = random.Random(seed)
        self.deadline = deadline
        self.cap = concretize_cap
        self.max_paths = max_paths
        self.trace = []
        self.model = None
        self.base_calls = {}
        # statistics
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0
        self.forks = 0
        self.checks_total = 0
        self.checks_discharged = 0
        self.checks_unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.inconclusive = {}
        self.complete = False

    # ---------------------------------------------------------------- solver
    def _check(self, *assumptions):
        self.queries += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Deadline()
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_time += time.perf_counter() - t
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Budget("solver unknown")
            self.model = self.solver.model()
        return self.model

    # ---------------------------------------------------------------- paths
    def begin_path(self):
        self.pos = 0
        self.memo = [{}]
        self.spec = 0
        self.local = None
        self.fresh_n = 0
        self.inputs = {}
        self.pending = []
        self.observed = []
        self.path_warnings = []
        self.calls = {k: list(v) for k, v in self.base_calls.items()}
        self.guards = []
        self.symkeyed = {}
        self.placeholders = {}
        self.placeholder_n = 0
        self.reached = False
        self.flags = {}

    def backtrack(self):
        while self.trace:
            e = self.trace.pop()
            if e.kind == "D":
                self.solver.pop()
                if e.alt is not False:
                    self.solver.push()
                    cond = e.alt
                    self.solver.add(cond)
                    self.model = e.alt_model
                    self.trace.append(_E("D", not e.value, False))
                    return True
        return False

    def reset(self):
        while self.solver.num_scopes():
            self.solver.pop()
        self.trace = []
        self.model = None

    def explore(self, fn, on_path):
        """Run fn() once per path.  on_path(status, detail) is called with the path state still current."""
        Engine.current = self
        try:
            while True:
                if self.max_paths is not None and self.paths >= self.max_paths:
                    return
                self.begin_path()
                status, detail = "ok", ""
                try:
                    fn()
                except PathAbort:
                    status = "infeasible"
                except Unsupported as u:
                    status, detail = "unsupported", str(u)
                except Budget as u:
                    status, detail = "budget", str(u)
                except PathTimeout as u:
                    status, detail = "timeout", str(u)
                except RecursionError as u:
                    status, detail = "unsupported", "RecursionError outside the code under test"
                self.paths += 1
                self.spec = 0
                self.local = None
                del self.memo[1:]
                if status == "infeasible":
                    self.infeasible += 1
                else:
                    if status != "ok":
                        k = f"{status}: {detail}"[:160]
                        self.inconclusive[k] = self.inconclusive.get(k, 0) + 1
                    if on_path(status, detail):
                        return
                if not self.backtrack():
                    self.complete = True
                    return
                if self.deadline is not None and time.monotonic() > self.deadline:
                    return
        except Deadline:
            return
        finally:
            Engine.current = None

    # ---------------------------------------------------------------- decisions
    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        for m in reversed(self.memo):
            hit = m.get(key)
            if hit is not None:
                return hit[1]
        self.decisions += 1
        if self.local is not None:
            v = self._decide_local(c)
        elif self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            v = e.value
        else:
            v = self._branch(c)
        self.memo[-1][key] = (c, v)
        n = z3.simplify(z3.Not(c))
        self.memo[-1][n.get_id()] = (n, not v)
        return v

    def _branch(self, c):
        m = self._ensure_model()
        mv = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if mv else c
        r = self._check(other)
        if r == z3.unsat:
            self.trace.append(_E("F", mv))
            self.pos += 1
            return mv
        if r == z3.unknown:
            raise Budget("solver unknown")
        if self.spec:
            raise NeedFork()
        self.forks += 1
        if FORKLOG is not None:
            import traceback

            fr = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in traceback.extract_stack()[-14:-2]]
            k = " < ".join(reversed([x for x in fr if not x.startswith(("values", "runtime", "engine"))][-3:])) + " | " + (
                " < ".join(reversed(fr[-4:])))
            FORKLOG[k] = FORKLOG.get(k, 0) + 1
        alt_model = self.solver.model()
        first = mv
        self.solver.push()
        self.solver.add(c if first else z3.Not(c))
        e = _E("D", first, other, alt_model)
        self.trace.append(e)
        self.pos += 1
        return first

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if self.spec or self.local is not None:
            raise NeedFork()
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self.trace.append(_E("A"))
        self.pos += 1
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        self._ensure_model()

    def pick(self, expr):
        """A feasible concrete value of expr under the current path (recorded in the trace)."""
        if self.local is not None:
            raise NeedFork()
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            return e.value
        m = self._ensure_model()
        v = m.eval(expr, model_completion=True).as_long()
        self.trace.append(_E("C", v))
        self.pos += 1
        return v

    def concretize(self, expr):
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(self.cap):
            v = self.pick(expr)
            if self.decide(expr == v):
                return v
        raise Budget("concretisation cap")

    # ---------------------------------------------------------------- speculation (path merging)
    def speculate(self, cond, fn):
        """Evaluate fn() under the extra assumption cond without forking.  Returns (ok, value)."""
        replay = self.pos < len(self.trace)
        start = self.pos
        if replay:
            e = self.trace[self.pos]
            assert e.kind == "S", e.kind
            if not e.value:
                self.pos += 1
                return False, None
        else:
            self.trace.append(_E("S", True))
        self.pos += 1
        live = self.pos >= len(self.trace)
        # a replayed speculation only consumes recorded entries; a live one needs the solver scope
        if live:
            self.solver.push()
            self.solver.add(cond)
            saved = self.model
            if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
        self.memo.append({})
        self.spec += 1
        ok, val = True, None
        try:
            try:
                val = fn()
            except (NeedFork, PathAbort, Exception):
                ok = False
        finally:
            self.spec -= 1
            self.memo.pop()
            if live:
                self.solver.pop()
                self.model = saved
        if not ok:
            del self.trace[start:]
            self.trace.append(_E("S", False))
            self.pos = start + 1
        return ok, val

    # ---------------------------------------------------------------- summaries (merging whole pure calls)
    def _decide_local(self, c):
        L = self.local
        if L.script is not None:
            forced, v = L.script[L.i]
            L.i += 1
            if not forced:
                L.conds.append(c if v else z3.Not(c))
            return v
        if L.i < len(L.dec):
            d = L.dec[L.i]
            L.i += 1
            if not d[1]:
                L.conds.append(c if d[0] else z3.Not(c))
            return d[0]
        m = self._ensure_model()
        mv = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if mv else c
        r = self._check(other)
        if r == z3.unknown:
            raise NeedFork()
        if r == z3.unsat:
            L.dec.append([mv, True, None, None])
            L.i += 1
            return mv
        alt_model = self.solver.model()
        L.dec.append([mv, False, other, alt_model])
        L.i += 1
        self.solver.push()
        lit = c if mv else z3.Not(c)
        self.solver.add(lit)
        L.conds.append(lit)
        return mv

    def summarize(self, fn, limit=40):
        """All paths of the call fn(), merged.  Returns (True, [(cond, value)]) or (False, None)."""
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "M", e.kind
            self.pos += 1
            if e.value is None:
                return False, None
            out = []
            for script in e.value:
                L = self.local = _Local(script)
                self.memo.append({})
                try:
                    v = fn()
                finally:
                    self.memo.pop()
                    self.local = None
                out.append((L.conds, v))
            return True, out
        saved = self.model
        out, scripts = [], []
        dec = []
        ok = True
        depth0 = self.solver.num_scopes()
        while True:
            L = self.local = _Local(None)
            L.dec = dec
            self.memo.append({})
            try:
                v = fn()
            except (NeedFork, PathAbort, Unsupported, Budget, Exception):
                ok = False
            finally:
                self.memo.pop()
                self.local = None
            if not ok:
                break
            out.append((L.conds, v))
            scripts.append([(d[1], d[0]) for d in dec])
            while dec and (dec[-1][1] or dec[-1][2] is None):
                d = dec.pop()
                if not d[1]:
                    self.solver.pop()
            if not dec:
                break
            d = dec[-1]
            self.solver.pop()
            self.solver.push()
            self.solver.add(d[2])
            self.model = d[3]
            d[0] = not d[0]
            d[2] = None
            if len(out) >= limit:
                ok = False
                break
        while self.solver.num_scopes() > depth0:
            self.solver.pop()
        self.model = saved
        self.trace.append(_E("M", scripts if ok else None))
        self.pos += 1
        return (True, out) if ok else (False, None)

    # ---------------------------------------------------------------- checks
    def add_check(self, cond, label, detail=None):
        self.pending.append((cond, label, detail))

    def flush_checks(self):
        """Decide all pending assertions of the path.  Returns None or (labels, model)."""
        bad = None
        conds = []
        for c, label, detail in self.pending:
            self.checks_total += 1
            if c is True:
                self.checks_discharged += 1
            elif c is False:
                if bad is None:
                    bad = [label]
                else:
                    bad.append(label)
            else:
                conds.append((c, label))
        self.pending = []
        if bad is not None:
            try:
                m = self._ensure_model()
            except (PathAbort, Budget):
                return None
            return bad, m
        if not conds:
            return None
        r = self._check(z3.Not(z3.And(*[c for c, _ in conds])))
        if r == z3.unsat:
            self.checks_discharged += len(conds)
            return None
        if r == z3.unknown:
            self.checks_unknown += len(conds)
            self.inconclusive["assertion: solver unknown"] = self.inconclusive.get("assertion: solver unknown", 0) + 1
            return None
        m = self.solver.model()
        labels = [l for c, l in conds if not z3.is_true(m.eval(c, model_completion=True))]
        return labels, m
