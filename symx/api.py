"""Harness API.  The same harness runs symbolically (SxSym) and, for replay, concretely (SxConc)."""
import os
import warnings as _w


class Outcome:
    """Result of running the code under test: value or exception, plus the warnings it issued."""

    def __init__(self, value=None, exc=None, warns=()):
        self.value = value
        self.exc = exc
        self.warns = list(warns)

    @property
    def ok(self):
        return self.exc is None

    @property
    def kind(self):
        return "ok" if self.exc is None else type(self.exc).__name__

    def isa(self, *names):
        """exception class (or a base of it) has one of these names"""
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)

    def warn_names(self):
        return [w[0] for w in self.warns]


class Base:
    symbolic = False

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def eq(self, a, b):
        """Deep equality of lists/tuples/scalars without forking."""
        if type(a) in (list, tuple) and type(b) in (list, tuple):
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        return self._eq(a, b)


class SxConc(Base):
    def __init__(self, values):
        self.values = values
        self.failures = []
        self.observed = []
        self.n_checks = 0
        self.assume_failed = False
        self.used = {}
        self.reached = False

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[self._get(name, 0)]

    pick = choice

    def opt(self, name, value):
        return value if self.bool(name + "?") else None

    def text(self, name, lo, hi, alphabet):
        return self._get(name, alphabet[0] * lo)

    def assume(self, c):
        if not c:
            self.assume_failed = True
            raise AssumeFailed()

    def check(self, c, label):
        self.n_checks += 1
        if not c:
            self.failures.append(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, value):
        self.observed.append([label, value])

    def reach(self):
        self.reached = True

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def _eq(self, a, b):
        return a == b

    def same(self, a, b):
        return a is b

    def isin(self, x, xs):
        return x in list(xs)

    def num(self, v):
        """decimal text of an integer"""
        return str(v)

    def hexnum(self, v):
        return hex(v)

    def parse(self, text, base):
        """value of a text of digits in the base"""
        return int(text, base)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def run(self, fn):
        with _w.catch_warnings(record=True) as rec:
            _w.simplefilter("always")
            value = exc = None
            try:
                value = fn()
            except Exception as e:  # noqa: BLE001
                exc = e
        return Outcome(value, exc, [(r.category.__name__, str(r.message), True) for r in rec])

    def wtext(self, w):
        return w[1]

    def int_or(self, v, d):
        return d if v is None else v


class SxRand(SxConc):
    """Concrete run on random inputs, which are recorded in used."""

    def __init__(self, rng):
        super().__init__({})
        self.rng = rng

    def _put(self, name, v):
        self.values[name] = self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        lo = -8 if lo is None and hi is None else hi - 16 if lo is None else lo
        hi = lo + 16 if hi is None else hi
        r = self.rng
        return self._put(name, r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, min(hi, lo + 8)), r.randint(lo, hi) // 8 * 8 if lo <= 0 else lo]))

    def bool(self, name):
        return self._put(name, self.rng.random() < 0.5)

    def choice(self, name, options):
        return options[self._put(name, self.rng.randrange(len(options)))]

    pick = choice

    def text(self, name, lo, hi, alphabet):
        return self._put(name, "".join(self.rng.choice(alphabet) for _ in range(self.rng.randint(lo, hi))))


TRACE = bool(os.environ.get("SYMX_TRACE"))


class AssumeFailed(Exception):
    pass


class SxSym(Base):
    symbolic = True

    def __init__(self, eng):
        import z3
        from . import values as V, symstr as S, runtime as R
        from .engine import Unsupported

        self.e = eng
        self.z3, self.V, self.S, self.R = z3, V, S, R

    def _reg(self, name, v, kind):
        if name in self.e.inputs:
            raise RuntimeError(f"duplicate symbolic input {name}")
        self.e.inputs[name] = (kind, v)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self._reg(name, lo, "int")
            return lo
        x = self.z3.Int(name)
        self._reg(name, self.V.SymInt(x), "int")
        c = []
        if lo is not None:
            c.append(x >= lo)
        if hi is not None:
            c.append(x <= hi)
        if c:
            self.e.assume(self.z3.And(*c))
        return self.V.SymInt(x)

    def bool(self, name):
        x = self.z3.Bool(name)
        self._reg(name, self.V.SymBool(x), "bool")
        return self.V.SymBool(x)

    def choice(self, name, options):
        if len(options) == 1:
            self._reg(name, 0, "int")
            return options[0]
        x = self.z3.Int(name)
        self._reg(name, self.V.SymInt(x), "int")
        self.e.assume(self.z3.And(x >= 0, x < len(options)))
        return self.V.mk_choice([(x == i, o) for i, o in enumerate(options)])

    def pick(self, name, options):
        if len(options) == 1:
            self._reg(name, 0, "int")
            return options[0]
        x = self.z3.Int(name)
        self._reg(name, self.V.SymInt(x), "int")
        self.e.assume(self.z3.And(x >= 0, x < len(options)))
        for i in range(len(options) - 1):
            if self.e.decide(x == i):
                return options[i]
        return options[-1]

    def opt(self, name, value):
        b = self.z3.Bool(name + "?")
        self._reg(name + "?", self.V.SymBool(b), "bool")
        return self.V.mk_choice([(b, value), (self.z3.Not(b), None)])

    def text(self, name, lo, hi, alphabet):
        n = lo
        if hi > lo:
            x = self.z3.Int(name + "#len")
            self.e.inputs[name + "#len"] = ("int", self.V.SymInt(x))
            self.e.assume(self.z3.And(x >= lo, x <= hi))
            while n < hi and not self.e.decide(x == n):
                n += 1
        z3 = self.z3
        codes = sorted({ord(c) for c in alphabet})
        runs = []
        for c in codes:
            if runs and runs[-1][1] == c - 1:
                runs[-1][1] = c
            else:
                runs.append([c, c])
        cs = []
        for i in range(n):
            x = z3.Int(f"{name}[{i}]")
            self.e.assume(z3.Or(*[z3.And(x >= a, x <= b) for a, b in runs]))
            cs.append(x)
        s = self.S.SymStr.from_chars(cs)
        self._reg(name, s, "str")
        return s

    def assume(self, c):
        if self.V.is_sym(c):
            self.e.assume(self.V.to_bool_expr(self.V.truth(c)))
        elif not c:
            from .engine import PathAbort

            raise PathAbort()

    def check(self, c, label):
        if self.V.is_sym(c):
            c = self.V.truth(c)
        if type(c) is self.V.SymBool:
            s = self.z3.simplify(c.e)
            c = True if self.z3.is_true(s) else False if self.z3.is_false(s) else s
        else:
            c = bool(c)
        self.e.add_check(c, label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, value):
        self.e.observed.append((label, value))

    def reach(self):
        self.e.reached = True

    def And(self, *a):
        return self.V.and_all(self.V.truth(x) for x in a)

    def Or(self, *a):
        return self.V.or_any(self.V.truth(x) for x in a)

    def Not(self, a):
        return self.V.not_(a)

    def ite(self, c, a, b):
        return self.V.ite(self.V.truth(c), a, b)

    def _eq(self, a, b):
        return self.V.eq(a, b)

    def same(self, a, b):
        return self.V.is_(a, b)

    def isin(self, x, xs):
        return self.V.or_any(self.V.eq(x, y) for y in list(xs))

    def num(self, v):
        return self.S.to_str(v) if self.V.is_sym(v) else str(v)

    def hexnum(self, v):
        return self.R.b_hex(v)

    def parse(self, text, base):
        if type(text) is str:
            return int(text, base)
        z3 = self.z3
        e = z3.IntVal(0)
        for c in self.S.SymStr.of(text).chars():
            c = z3.IntVal(ord(c)) if type(c) is str else c
            e = e * base + z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
        return self.V.mk_int(z3.simplify(e))

    def max(self, xs):
        return self.R.b_max(xs)

    def min(self, xs):
        return self.R.b_min(xs)

    def run(self, fn):
        n = len(self.e.path_warnings)
        value = exc = None
        try:
            value = fn()
        except Exception as e:  # noqa: BLE001
            exc = e
            if TRACE:
                import sys
                import traceback
                sys.stderr.write("TRACE " + traceback.format_exc()[-3000:] + "\n")
        return Outcome(value, exc, [(c.__name__, m, g) for c, m, g in self.e.path_warnings[n:]])

    def wtext(self, w):
        return w[1]


def conc(v, m):
    """Concrete value of a symbolic value under model m."""
    import z3
    from . import values as V, symstr as S

    t = type(v)
    if t is V.SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if t is V.SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is V.Choice:
        for g, a in v.alts[:-1]:
            if z3.is_true(m.eval(g, model_completion=True)):
                return conc(a, m)
        return conc(v.alts[-1][1], m)
    if t is S.SymStr:
        out = []
        for p in v.parts():
            if type(p) is str:
                out.append(p)
            elif isinstance(p, z3.ExprRef):
                out.append(chr(m.eval(p, model_completion=True).as_long()))
            elif type(p) is S.LazyNum:
                out.append(p.render(m.eval(p.e, model_completion=True).as_long()))
            else:
                x = conc(p.v, m)
                x = repr(x) if p.conv == "r" else x
                out.append(format(x, p.spec) if p.spec else str(x))
        return "".join(out)
    if t is list:
        return [conc(x, m) for x in v]
    if t is tuple:
        return [conc(x, m) for x in v]
    if t is dict:
        return {str(conc(k, m)): conc(x, m) for k, x in v.items()}
    if t in (set, frozenset):
        return sorted((conc(x, m) for x in v), key=str)
    if v is None or t in (bool, int, str, float):
        return v
    import enum

    if isinstance(v, enum.Enum):
        return f"{type(v).__name__}.{v.name}"
    return f"<{type(v).__name__}>"


def plain(v):
    """JSON form of an observed concrete value (mirrors conc)."""
    import enum

    t = type(v)
    if isinstance(v, enum.Enum):
        return f"{type(v).__name__}.{v.name}"
    if t in (list, tuple):
        return [plain(x) for x in v]
    if t is dict:
        return {str(plain(k)): plain(x) for k, x in v.items()}
    if t in (set, frozenset):
        return sorted((plain(x) for x in v), key=str)
    if v is None or t in (bool, int, str, float):
        return v
    return f"<{t.__name__}>"
