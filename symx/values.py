"""Symbolic proxy values: SymBool, SymInt, SymStr (concrete length or lazy pieces), Choice (guarded union)."""
import enum

import z3

from .engine import Engine, Unsupported, Budget, NeedFork


def eng():
    return Engine.current


SYMTYPES = set()


class Sym:
    __slots__ = ()

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        SYMTYPES.add(cls)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")


def is_sym(x):
    return type(x) in SYMTYPES


# ------------------------------------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, bool):
            o2 = to_bool_expr(o)
            return mk_bool(self.e == o2)
        if type(o) is Choice:
            return NotImplemented
        if type(o) in (int, SymInt):
            return mk_bool(self._i().e == to_int_expr(o))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o)) if self.__eq__(o) is not NotImplemented else NotImplemented

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __and__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.And(self.e, to_bool_expr(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.Or(self.e, to_bool_expr(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return -self._i() - 1

    def __xor__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.Xor(self.e, to_bool_expr(o)))
        return NotImplemented

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def to_bool_expr(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(x):
    t = type(x)
    if t is SymBool:
        return mk_bool(z3.simplify(z3.Not(x.e)))
    if t is SymInt:
        return mk_bool(x.e == 0)
    if t is Choice:
        return not_(x.truth())
    return not x


def truth(x):
    """Truth value of x without forking where possible (bool or SymBool)."""
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mk_bool(x.e != 0)
    if t is Choice:
        return x.truth()
    return bool(x)


def and_all(items):
    out = []
    for i in items:
        if i is False:
            return False
        if i is True:
            continue
        out.append(to_bool_expr(i))
    if not out:
        return True
    return SymBool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def or_any(items):
    out = []
    for i in items:
        if i is True:
            return True
        if i is False:
            continue
        out.append(to_bool_expr(i))
    if not out:
        return False
    return SymBool(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


# ------------------------------------------------------------------------------------------------ integers
def to_int_expr(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _num(o):
    """z3 operand of a numeric python operand, or None."""
    t = type(o)
    if t is int or t is bool:
        return int(o)
    if t is SymInt:
        return o.e
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, int) and not is_sym(o):
        return int(o)
    return None


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(f(self.e, n))

    def _cmp(self, o, f):
        n = _num(o)
        if n is None:
            return NotImplemented
        return mk_bool(f(self.e, n))

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple):
            return o * self.__index__()
        if type(o) is int and o == 0:
            return 0
        if type(o) is int and o == 1:
            return self
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return SymInt(-self.e - 1)

    def _divmod(self, a, b):
        """floor division / modulo of z3 ints with python semantics (b may be symbolic)."""
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            b = z3.IntVal(b)
            pos = b.as_long() > 0
        else:
            if eng().decide(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = eng().decide(b > 0)
        if isinstance(a, int):
            a = z3.IntVal(a)
        if pos:
            return a / b, a % b
        # python floors towards -inf: a//b == (-a)//(-b)
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(self._divmod(self.e, n)[0])

    def __rfloordiv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(self._divmod(n, self.e)[0])

    def __mod__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(self._divmod(self.e, n)[1])

    def __rmod__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(self._divmod(n, self.e)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 3 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(self.__index__(), conc_int(o), mod)

    def __rpow__(self, o, mod=None):
        return pow(o, self.__index__(), mod)

    def __lshift__(self, o):
        return self * (1 << conc_int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << conc_int(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n, int):
            if n == 0:
                return 0
            if n > 0:
                # sum of contiguous runs of ones
                r, bit, m = 0, 0, n
                runs = []
                while m:
                    if m & 1:
                        w = 0
                        while m & 1:
                            w += 1
                            m >>= 1
                        runs.append((bit, w))
                        bit += w
                    else:
                        bit += 1
                        m >>= 1
                if len(runs) <= 8:
                    for lo, w in runs:
                        r = r + ((self // (1 << lo)) % (1 << w)) * (1 << lo)
                    return r
            else:
                # x & -2**k clears the low bits
                k = -n
                if k & (k - 1) == 0:
                    return self - self % k
        return self.__index__() & conc_int(o)

    __rand__ = __and__

    def __or__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n, int):
            return self + n - (self & n)
        return self.__index__() | conc_int(o)

    __ror__ = __or__

    def __xor__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n, int):
            return self + n - (self & n) * 2
        return self.__index__() ^ conc_int(o)

    __rxor__ = __xor__

    def __eq__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented if type(o) is Choice else False
        return mk_bool(self.e == n)

    def __ne__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented if type(o) is Choice else True
        return mk_bool(self.e != n)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().decide(self.e != 0)

    def __index__(self):
        return eng().concretize(self.e)

    def __int__(self):
        return self.__index__()

    def __trunc__(self):
        return self

    def __hash__(self):
        if eng().flags.get("rawhash"):
            return id(self)
        return hash(self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    def bit_count(self):
        return self.__index__().bit_count()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    def __format__(self, spec):
        # native formatting (not routed through the f-string rewriting)
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return f"<SymInt {self.e}>"


def conc_int(x):
    t = type(x)
    if t is SymInt or t is SymBool or t is Choice:
        return x.__index__()
    return x


def sym_max(vals, smallest=False):
    r = vals[0]
    for v in vals[1:]:
        a, b = to_int_expr(r), to_int_expr(v)
        c = z3.simplify((b < a) if smallest else (b > a))
        if z3.is_true(c):
            r = v
        elif z3.is_false(c):
            pass
        else:
            r = SymInt(z3.If(c, b, a))
    return r


# ------------------------------------------------------------------------------------------------ choice
_STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "isdigit", "replace", "casefold",
                "removeprefix", "removesuffix", "isalpha", "isalnum", "capitalize"}


class Choice(Sym):
    """Guarded union of python values; guards are exclusive and exhaustive on the current path."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    @property
    def __class__(self):
        cls = {_cls(v) for _, v in self.alts}
        if len(cls) == 1:
            return cls.pop()
        return _cls(self.resolve())

    def live(self):
        return self.alts

    def resolve(self):
        v = self
        while type(v) is Choice:
            alts = v.alts
            for g, a in alts[:-1]:
                if eng().decide(g):
                    v = a
                    break
            else:
                v = alts[-1][1]
        return v

    def narrow(self, ok):
        """Drop the alternatives that are not ok, or pick one of them (decided, so a fork only if both remain possible)."""
        keep = []
        for g, v in self.alts:
            if ok(v):
                keep.append((g, v))
            elif eng().decide(g):
                return v
        return self if len(keep) == len(self.alts) else self.resolve() if not keep else mk_choice(keep)

    def map(self, f):
        return mk_choice([(g, f(v)) for g, v in self.alts])

    def truth(self):
        return or_any(and_all([mk_bool(g), truth(v)]) for g, v in self.alts)

    def eq(self, o):
        return or_any(and_all([mk_bool(g), eq(v, o)]) for g, v in self.alts)

    def is_(self, o):
        return or_any(and_all([mk_bool(g), is_(v, o)]) for g, v in self.alts)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not_(self.eq(o))

    def __bool__(self):
        return bool(self.truth())

    def __hash__(self):
        if eng().flags.get("rawhash"):
            return id(self)
        return hash(self.resolve())

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            v = self.resolve()
            return getattr(v, name)
        if all(isinstance(v, enum.Enum) for _, v in self.alts):
            if name in ("value", "name", "_value_", "_name_"):
                return self.map(lambda v: getattr(v, name))
        if name in _STR_METHODS and any(isinstance(v, str) for _, v in self.alts):
            c = self.narrow(lambda v: isinstance(v, str))
            if type(c) is not Choice:
                return getattr(c, name)
            self = c
            def method(*a, **k):
                if any(is_sym(x) for x in a):
                    return getattr(self.resolve(), name)(*a, **k)
                return self.map(lambda v: getattr(v, name)(*a, **k))
            return method
        return getattr(self.resolve(), name)

    def __index__(self):
        v = self.resolve()
        return v.__index__()

    def __int__(self):
        return int(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __iter__(self):
        return iter(self.resolve())

    def __getitem__(self, k):
        return self.resolve()[k]

    def __contains__(self, k):
        return contains(self.resolve(), k)

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __str__(self):
        v = self.resolve()
        return str(v)

    def __repr__(self):
        return f"<Choice {self.alts}>"

    def __format__(self, spec):
        return format(self.resolve(), spec)


def _cls(v):
    return type(v) if not is_sym(v) else v.__class__


def _mk_binop(name, rname):
    import operator

    op = {
        "add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv,
        "mod": operator.mod, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
        "lshift": operator.lshift, "rshift": operator.rshift, "pow": operator.pow,
        "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "truediv": operator.truediv,
    }[name]

    def fwd(self, o):
        return op(self.resolve(), o)

    def rev(self, o):
        return op(o, self.resolve())

    setattr(Choice, f"__{name}__", fwd)
    if rname:
        setattr(Choice, f"__{rname}__", rev)


for _n in ("add", "sub", "mul", "floordiv", "mod", "and", "or", "xor", "lshift", "rshift", "pow", "truediv"):
    _mk_binop(_n, "r" + _n)
for _n in ("lt", "le", "gt", "ge"):
    _mk_binop(_n, None)
Choice.__neg__ = lambda self: -self.resolve()


def mk_choice(alts):
    """Build the simplest value for guarded alternatives (flattening, merging equal objects and ints)."""
    flat = []
    for g, v in alts:
        if z3.is_false(g):
            continue
        if type(v) is Choice:
            for g2, v2 in v.alts:
                gg = z3.simplify(z3.And(g, g2))
                if not z3.is_false(gg):
                    flat.append((gg, v2))
        else:
            flat.append((g, v))
    ints = [(g, v) for g, v in flat if type(v) in (int, SymInt)]
    rest = [(g, v) for g, v in flat if type(v) not in (int, SymInt)]
    bools = [(g, v) for g, v in rest if type(v) in (bool, SymBool)]
    rest = [(g, v) for g, v in rest if type(v) not in (bool, SymBool)]
    out = []
    if ints:
        e = to_int_expr(ints[-1][1])
        for g, v in reversed(ints[:-1]):
            e = z3.If(g, to_int_expr(v), e)
        g = z3.Or(*[g for g, _ in ints]) if len(ints) > 1 else ints[0][0]
        out.append((g, mk_int(z3.simplify(e))))
    if bools:
        e = to_bool_expr(bools[-1][1])
        for g, v in reversed(bools[:-1]):
            e = z3.If(g, to_bool_expr(v), e)
        g = z3.Or(*[g for g, _ in bools]) if len(bools) > 1 else bools[0][0]
        out.append((g, mk_bool(z3.simplify(e))))
    merged = []
    for g, v in rest:
        for i, (g2, v2) in enumerate(merged):
            if v2 is v or (type(v) is str and type(v2) is str and v == v2):
                merged[i] = (z3.Or(g2, g), v2)
                break
        else:
            merged.append((g, v))
    out = merged + out
    if len(out) == 1:
        return out[0][1]
    return Choice([(z3.simplify(g), v) for g, v in out])


def ite(c, a, b):
    """Merge two values under condition c (bool or SymBool)."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    e = to_bool_expr(c)
    return mk_choice([(e, a), (z3.Not(e), b)])


MERGEABLE = (type(None), bool, int, str, SymInt, SymBool, Choice)


def mergeable(v):
    return type(v) in MERGEABLE or isinstance(v, enum.Enum) or (not is_sym(v) and hasattr(v, "__dict__"))


# ------------------------------------------------------------------------------------------------ generic eq
def eq(a, b):
    """a == b as bool or SymBool."""
    if type(a) is Choice:
        return a.eq(b)
    if type(b) is Choice:
        return b.eq(a)
    r = a == b
    if r is True or r is False or type(r) is SymBool:
        return r
    return bool(r)


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is Choice:
        return a.is_(b)
    if tb is Choice:
        return b.is_(a)
    if ta is SymBool and tb in (bool, SymBool):
        return a == b
    if tb is SymBool and ta is bool:
        return b == a
    if ta is SymInt or tb is SymInt:
        if ta in (SymInt, int) and tb in (SymInt, int):
            return eq(a, b)
        return False
    return a is b


def contains(container, item):
    """item in container (bool or SymBool), with symbolic members/items allowed."""
    tc = type(container)
    if tc is Choice:
        return contains(container.resolve(), item)
    if isinstance(container, SymStr):
        return container.contains(item)
    if tc is str:
        if type(item) is Choice:
            item = item.resolve()
        if isinstance(item, SymStr):
            return SymStr.of(container).contains(item)
        return item in container
    if tc in (list, tuple, set, frozenset, dict) or tc.__name__ in ("dict_keys", "dict_values"):
        if is_sym(item) or tc in (list, tuple) or tc.__name__ == "dict_values" or id(container) in eng().symkeyed:
            return or_any(m is item or eq(m, item) for m in list(container))
        return item in container
    if tc is range and type(item) is SymInt:
        if container.step == 1:
            return and_all([item >= container.start, item < container.stop])
        return or_any(item == v for v in container)
    if tc is range and type(item) is Choice:
        return contains(container, item.resolve())
    if isinstance(container, type) and issubclass(container, enum.Enum):
        if is_sym(item):
            return or_any(or_any([eq(item, m), eq(item, m.value)]) for m in container)
        return item in container
    return item in container


from .symstr import SymStr, LazyNum  # noqa: E402,F401
