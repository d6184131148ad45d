"""Symbolic strings: sequences of literal text, symbolic ASCII characters and lazily rendered values."""
import z3

from .engine import Engine, Unsupported, Budget
from . import values as V

WS = " \t\n\r\x0b\x0c"
WS_CODES = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]


class LazyNum:
    """str()/hex()/format() of a symbolic integer, rendered into digits only when characters are inspected."""

    __slots__ = ("e", "base", "prefix", "upper", "width")

    def __init__(self, e, base=10, prefix="", upper=False, width=0):
        self.e, self.base, self.prefix, self.upper, self.width = e, base, prefix, upper, width

    def chars(self):
        eng = Engine.current
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return list(self.render(e.as_long()))
        sign = []
        if eng.decide(e < 0):
            sign = ["-"]
            e = -e
        n = 1
        while not eng.decide(e < self.base**n):
            n += 1
            if n > 70:
                raise Budget("number too long")
        ds = [z3.Int(eng.fresh("dg")) for _ in range(n)]
        cons = [z3.And(d >= 0, d < self.base) for d in ds]
        cons.append(z3.Sum([d * self.base ** (n - 1 - i) for i, d in enumerate(ds)]) == e)
        eng.assume(z3.And(*cons))
        out = []
        for d in ds:
            if self.base <= 10:
                out.append(z3.simplify(d + 48))
            else:
                out.append(z3.If(d < 10, d + 48, d + (55 if self.upper else 87)))
        pad = self.width - len(sign) - len(self.prefix) - n
        return sign + list(self.prefix) + ["0"] * max(0, pad) + out

    def _known(self):
        e = z3.simplify(self.e)
        return self.render(e.as_long()) if z3.is_int_value(e) else None

    def length(self):
        """number of characters, without a fork"""
        k = self._known()
        if k is not None:
            return len(k)
        if not Engine.current.decide(z3.And(self.e > -(2**64), self.e < 2**64)):
            return None
        e, n = z3.If(self.e < 0, -self.e, self.e), z3.IntVal(1)
        i = 1
        while self.base**i <= 2**64:
            n = z3.If(e >= self.base**i, i + 1, n)
            i += 1
        n = n + len(self.prefix) + z3.If(self.e < 0, 1, 0)
        n = z3.If(n < self.width, self.width, n)
        return V.mk_int(n)

    def first(self):
        """the first character, without a fork (None: not available)"""
        k = self._known()
        if k is not None:
            return k[0]
        if self.width or self.base > 10 or not Engine.current.decide(z3.And(self.e >= 0, self.e < 2**64)):
            return self.prefix[0] if self.prefix and not self.width and Engine.current.decide(self.e >= 0) else None
        if self.prefix:
            return self.prefix[0]
        e = self.e
        d = e
        i = 1
        while self.base**i <= 2**64:
            d = z3.If(e >= self.base**i, e / (self.base**i), d)
            i += 1
        c = z3.Int(Engine.current.fresh("fc"))
        Engine.current.assume(z3.And(c >= 48, c < 48 + self.base, c == d + 48))
        return c

    def render(self, v):
        body = {10: "d", 16: "X" if self.upper else "x", 2: "b", 8: "o"}[self.base]
        t = format(abs(v), body)
        s = "-" if v < 0 else ""
        pad = self.width - len(s) - len(self.prefix) - len(t)
        return s + self.prefix + "0" * max(0, pad) + t


    def may_touch(self, item, left, right, first, last):
        """Could an occurrence of item include characters of this number, given the literal neighbours (None: unknown)?"""
        dig = "0123456789ABCDEF" if self.upper else "0123456789abcdef"
        ok = set(dig[: self.base]) | set(self.prefix) | {"-"}
        n = len(item)
        for i in range(n):
            for j in range(i + 1, n + 1):
                if item[j - 1] not in ok:
                    break
                r = item[i:j]
                if i > 0:
                    if first or (left is not None and not (item[:i].endswith(left) if len(left) < i else left.endswith(item[:i]))):
                        continue
                    h = r[1:] if r[0] == "-" else r
                    if not (h.startswith(self.prefix) or self.prefix.startswith(h)):
                        continue
                    if "-" in h:
                        continue
                if j < n:
                    if last or (right is not None and not (item[j:].startswith(right) if len(right) < n - j else right.startswith(item[j:]))):
                        continue
                return True
        return False


class LazyVal:
    """str() of an arbitrary (symbolic) value, rendered only when characters are inspected."""

    __slots__ = ("v", "conv", "spec")

    def __init__(self, v, conv="s", spec=""):
        self.v, self.conv, self.spec = v, conv, spec

    def chars(self):
        v = self.v
        while type(v) is V.Choice:
            v = v.resolve()
        if isinstance(v, SymStr) and not self.spec:
            return v.chars()
        if type(v) is V.SymInt:
            return fmt_int(v, self.spec).chars()
        if type(v) is V.SymBool:
            v = bool(v)
        t = repr(v) if self.conv == "r" else str(v)
        return list(format(t, self.spec) if self.spec else t)


def fmt_int(v, spec):
    """format(SymInt, spec) as SymStr."""
    s = spec
    alt = "#" in s
    core = s.replace("#", "")
    width = 0
    typ = "d"
    if core and core[-1] in "dxXbo":
        typ = core[-1]
        core = core[:-1]
    if core:
        if core[0] == "0" and core[1:].isdigit():
            width = int(core)
        else:
            return SymStr([format(v.__index__(), spec)])
    base = {"d": 10, "x": 16, "X": 16, "b": 2, "o": 8}[typ]
    prefix = {"d": "", "x": "0x", "X": "0X", "b": "0b", "o": "0o"}[typ] if alt else ""
    return SymStr([LazyNum(v.e, base, prefix, typ == "X", width)])


def ceq(a, b):
    """equality of two characters (1-char str or z3 code)."""
    if type(a) is str and type(b) is str:
        return a == b
    x = z3.IntVal(ord(a)) if type(a) is str else a
    y = z3.IntVal(ord(b)) if type(b) is str else b
    return V.SymBool(x == y)


def code(c):
    return z3.IntVal(ord(c)) if type(c) is str else c


def rng(c, lo, hi):
    return z3.And(c >= ord(lo), c <= ord(hi))


def is_ws(c):
    if type(c) is str:
        return c.isspace()
    return V.SymBool(z3.Or(z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 32)))


def is_digit(c):
    if type(c) is str:
        return c.isdigit()
    return V.SymBool(rng(c, "0", "9"))


def is_alpha(c):
    if type(c) is str:
        return c.isalpha()
    return V.SymBool(z3.Or(rng(c, "a", "z"), rng(c, "A", "Z")))


def is_alnum(c):
    return V.or_any([is_digit(c), is_alpha(c)])


def lower(c):
    if type(c) is str:
        return c.lower()
    return z3.simplify(z3.If(rng(c, "A", "Z"), c + 32, c))


def upper(c):
    if type(c) is str:
        return c.upper()
    return z3.simplify(z3.If(rng(c, "a", "z"), c - 32, c))


def digit_val(c):
    """value expression of a character already known to be a digit of some base."""
    if type(c) is str:
        return z3.IntVal(int(c, 36))
    return z3.If(c <= 57, c - 48, z3.If(c >= 97, c - 87, c - 55))


def valid_digit(c, base):
    if type(c) is str:
        return c.isascii() and c.isalnum() and int(c, 36) < base
    parts = [z3.And(c >= 48, c <= 47 + min(base, 10))]
    if base > 10:
        parts.append(z3.And(c >= 97, c <= 96 + base - 10))
        parts.append(z3.And(c >= 65, c <= 64 + base - 10))
    return V.SymBool(z3.Or(*parts))


def _simplify_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, SymStr):
            sub = p._parts if p._chars is None else p._chars
            for q in sub:
                if type(q) is str and out and type(out[-1]) is str:
                    out[-1] += q
                else:
                    out.append(q)
        elif type(p) is str:
            if out and type(out[-1]) is str:
                out[-1] += p
            elif p:
                out.append(p)
        else:
            out.append(p)
    return out


class SymStr(V.Sym):
    __slots__ = ("_parts", "_chars")

    def __init__(self, parts):
        self._parts = _simplify_parts(parts)
        self._chars = None

    @staticmethod
    def of(x):
        t = type(x)
        if t is SymStr:
            return x
        if t is str:
            return SymStr([x])
        if t is V.Choice:
            return SymStr.of(x.resolve())
        raise TypeError(f"expected str, got {t.__name__}")

    @staticmethod
    def from_chars(chars):
        s = SymStr([])
        s._chars = list(chars)
        s._parts = None
        return s.norm()

    def norm(self):
        """plain str if nothing symbolic remains"""
        if self._chars is not None:
            if all(type(c) is str for c in self._chars):
                return "".join(self._chars)
            return self
        if not self._parts:
            return ""
        if len(self._parts) == 1 and type(self._parts[0]) is str:
            return self._parts[0]
        return self

    @property
    def __class__(self):
        return str

    def parts(self):
        return self._parts if self._chars is None else self._chars

    def chars(self):
        if self._chars is None:
            out = []
            for p in self._parts:
                if type(p) is str:
                    out.extend(p)
                elif isinstance(p, z3.ExprRef):
                    out.append(p)
                else:
                    out.extend(p.chars())
            self._chars = out
        return self._chars

    def lead(self):
        """leading literal characters available without rendering lazies"""
        if self._chars is not None:
            n = 0
            for c in self._chars:
                if type(c) is not str:
                    break
                n += 1
            return "".join(self._chars[:n])
        if self._parts and type(self._parts[0]) is str:
            return self._parts[0]
        return ""

    def first_set(self):
        """possible first characters without rendering lazies, or None"""
        if self._chars is None and self._parts:
            p = self._parts[0]
            if type(p) is str and p:
                return {p[0]}
            if type(p) is LazyNum:
                if Engine.current.decide(z3.simplify(p.e < 0)):
                    return {"-"}
                return {p.prefix[0]} if p.prefix else set("0123456789abcdefABCDEF")
        return None

    # ------------------------------------------------------------ comparisons
    def eq(self, o):
        if type(o) is V.Choice:
            return o.eq(self)
        if type(o) is str:
            oc = list(o)
        elif type(o) is SymStr:
            if o is self:
                return True
            oc = None
            a, b = self._parts, o._parts
            if self._chars is None and o._chars is None and len(a) == len(b):
                if all(
                    (type(x) is str and type(y) is str and x == y)
                    or (type(x) is LazyNum and type(y) is LazyNum and x.base == y.base and x.prefix == y.prefix
                        and x.upper == y.upper and x.width == y.width)
                    or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef))
                    for x, y in zip(a, b)
                ) and sum(1 for x in a if type(x) is LazyNum) <= 1:
                    return V.and_all(
                        V.SymBool((x.e if type(x) is LazyNum else x) == (y.e if type(y) is LazyNum else y))
                        for x, y in zip(a, b)
                        if type(x) is not str
                    )
            oc = o.chars()
        else:
            return False
        l1, l2 = self.lead(), None
        if type(o) is str:
            k = min(len(l1), len(o))
            if l1[:k] != o[:k]:
                return False
            if len(l1) > len(o):
                return False
        c = self.chars()
        if len(c) != len(oc):
            return False
        return V.and_all(ceq(x, y) for x, y in zip(c, oc))

    def __eq__(self, o):
        if type(o) is V.Choice:
            return NotImplemented
        return self.eq(o)

    def __ne__(self, o):
        if type(o) is V.Choice:
            return NotImplemented
        return V.not_(self.eq(o))

    def __hash__(self):
        if Engine.current.flags.get("rawhash"):
            return id(self)
        return hash(self.concrete())

    def concrete(self):
        """Concretise every character (forks)."""
        eng = Engine.current
        return "".join(c if type(c) is str else chr(eng.concretize(c)) for c in self.chars())

    def _cmp(self, o):
        """-1/0/1 lexicographic, forking"""
        a, b = self.chars(), SymStr.of(o).chars()
        for x, y in zip(a, b):
            if bool(ceq(x, y)):
                continue
            return -1 if bool(V.mk_bool(z3.simplify(code(x) < code(y)))) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __bool__(self):
        if self.lead():
            return True
        if self._chars is None and any(p if type(p) is str else True for p in self._parts):
            return True
        return len(self.chars()) > 0

    def length(self):
        """number of characters; symbolic where a number of unknown length is inside"""
        if self._chars is not None:
            return len(self._chars)
        n = 0
        for p in self._parts:
            k = len(p) if type(p) is str else 1 if isinstance(p, z3.ExprRef) else p.length()
            if k is None:
                return len(self.chars())
            n = n + k
        return n

    def _first(self):
        if self._chars is None and self._parts and type(self._parts[0]) is LazyNum:
            c = self._parts[0].first()
            return None if c is None else c if type(c) is str else SymStr.from_chars([c])
        return None

    def __len__(self):
        return len(self.chars())

    def __iter__(self):
        for c in self.chars():
            yield c if type(c) is str else SymStr.from_chars([c])

    def __getitem__(self, k):
        if type(k) is slice:
            lead = self.lead()
            if (self._chars is None and k.step is None and type(k.start) is int and k.stop is None
                    and 0 <= k.start <= len(lead)):
                return SymStr([lead[k.start:]] + self._parts[1:]).norm() if lead else self
            if k.step is None and type(k.stop) is int and (k.start is None or type(k.start) is int and k.start >= 0):
                if 0 <= k.stop <= len(lead):
                    return lead[k.start:k.stop]
                if k.stop == 1 and not k.start:
                    c = self._first()
                    if c is not None:
                        return c
            return SymStr.from_chars(self.chars()[k])
        lead = self.lead()
        if type(k) is int and 0 <= k < len(lead):
            return lead[k]
        if type(k) is int and k == 0:
            c = self._first()
            if c is not None:
                return c
        c = self.chars()[V.conc_int(k)]
        return c if type(c) is str else SymStr.from_chars([c])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr([self, o if type(o) in (str, SymStr) else SymStr.of(o)])

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr([o if type(o) in (str, SymStr) else SymStr.of(o), self])

    def __mul__(self, n):
        return SymStr([self] * V.conc_int(n)).norm()

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(self, args)

    def __contains__(self, item):
        return bool(self.contains(item))

    def _split_numbers(self, item):
        """The stretches between unrendered numbers, if no occurrence of item can touch one of the numbers; else None."""
        ps = self._parts
        for k, p in enumerate(ps):
            if type(p) is not LazyNum:
                continue
            left = ps[k - 1] if k and type(ps[k - 1]) is str else None
            right = ps[k + 1] if k + 1 < len(ps) and type(ps[k + 1]) is str else None
            if p.may_touch(item, left, right, k == 0, k + 1 == len(ps)):
                return None
        out, cur = [], []
        for p in ps:
            if type(p) is LazyNum:
                out.append(cur)
                cur = []
            else:
                cur.append(p)
        out.append(cur)
        return [SymStr(x) for x in out if x]

    def contains(self, item):
        if type(item) is str and self._chars is None and any(type(p) is str and item in p for p in self._parts):
            return True
        if type(item) is str and item and self._chars is None and any(type(p) is LazyNum for p in self._parts):
            segs = self._split_numbers(item)
            if segs is not None:
                return V.or_any(s.contains(item) for s in segs)
        it = SymStr.of(item).chars()
        c = self.chars()
        n = len(it)
        return V.or_any(
            V.and_all(ceq(x, y) for x, y in zip(c[i : i + n], it)) for i in range(len(c) - n + 1)
        )

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return f"<SymStr {self._parts if self._chars is None else self._chars}>"

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # ------------------------------------------------------------ methods
    def lower(self):
        if self._chars is None and any(type(p) is LazyNum and not p.upper for p in self._parts) and all(
            type(p) in (str, LazyNum) and not (type(p) is LazyNum and p.upper) for p in self._parts
        ):
            return SymStr([p.lower() if type(p) is str else p for p in self._parts])
        return SymStr.from_chars([lower(c) for c in self.chars()])

    casefold = lower

    def upper(self):
        return SymStr.from_chars([upper(c) for c in self.chars()])

    def _stripset(self, chars):
        if chars is None:
            return is_ws
        cs = SymStr.of(chars).chars()
        return lambda c: V.or_any(ceq(c, x) for x in cs)

    def lstrip(self, chars=None):
        fs = self.first_set()
        if fs is not None and type(chars) in (str, type(None)) and not fs & set(WS if chars is None else chars):
            return self
        f = self._stripset(chars)
        c = self.chars()
        i = 0
        while i < len(c) and bool(f(c[i])):
            i += 1
        return self if i == 0 else SymStr.from_chars(c[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        if self._chars is None and self._parts and chars is None:
            last = self._parts[-1]
            if type(last) is LazyNum or (type(last) is str and not last[-1].isspace()):
                return self
        c = self.chars()
        i = len(c)
        while i > 0 and bool(f(c[i - 1])):
            i -= 1
        return self if i == len(c) else SymStr.from_chars(c[:i])

    def strip(self, chars=None):
        if chars is None and self._chars is None and self._parts and type(self._parts[0]) is LazyNum:
            s = self
        else:
            s = self.lstrip(chars)
        return s.rstrip(chars) if isinstance(s, SymStr) and type(s) is SymStr else s.rstrip(chars)

    def startswith(self, prefix, start=0, end=None):
        if type(prefix) is tuple:
            return V.or_any(self.startswith(p) for p in prefix)
        s = self if not start and end is None else SymStr.of(self[start:end])
        if type(prefix) is str:
            lead = s.lead()
            k = min(len(lead), len(prefix))
            if lead[:k] != prefix[:k]:
                return False
            if k == len(prefix):
                return True
            fs = s.first_set()
            if fs is not None and prefix[0] not in fs:
                return False
        p = SymStr.of(prefix).chars()
        c = s.chars()
        if len(p) > len(c):
            return False
        return V.and_all(ceq(x, y) for x, y in zip(c, p))

    def endswith(self, suffix, start=0, end=None):
        if type(suffix) is tuple:
            return V.or_any(self.endswith(p) for p in suffix)
        p = SymStr.of(suffix).chars()
        c = SymStr.of(self[start:end]).chars() if (start or end is not None) else self.chars()
        if len(p) > len(c):
            return False
        return V.and_all(ceq(x, y) for x, y in zip(c[len(c) - len(p) :], p))

    def removeprefix(self, p):
        return self[len(p):] if bool(V.truth(self.startswith(p))) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and bool(V.truth(self.endswith(p))) else self

    def find(self, sub, start=0, end=None):
        it = SymStr.of(sub).chars()
        c = self.chars()
        n = len(it)
        stop = len(c) if end is None else min(end, len(c))
        for i in range(start, stop - n + 1):
            if bool(V.truth(V.and_all(ceq(x, y) for x, y in zip(c[i : i + n], it)))):
                return i
        return -1

    def rfind(self, sub):
        it = SymStr.of(sub).chars()
        c = self.chars()
        n = len(it)
        for i in range(len(c) - n, -1, -1):
            if bool(V.truth(V.and_all(ceq(x, y) for x, y in zip(c[i : i + n], it)))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        n, i = 0, 0
        while True:
            j = self.find(sub, i)
            if j < 0:
                return n
            n += 1
            i = j + max(1, len(sub))

    def replace(self, old, new, count=-1):
        if type(old) is str and old and self._chars is None and all(type(p) in (str, LazyNum) for p in self._parts):
            # digits/hex digits/prefix characters can only match if old contains one of them
            if len(old) == 1 and not (old.isalnum() or old == "-") or not any(type(p) is LazyNum for p in self._parts):
                if count == -1:
                    out = []
                    for p in self._parts:
                        if type(p) is not str:
                            out.append(p)
                            continue
                        for i, piece in enumerate(p.split(old)):
                            if i:
                                out.extend([new] if type(new) is str else SymStr.of(new).parts())
                            out.append(piece)
                    return SymStr(out).norm()
        out = []
        i = 0
        c = self.chars()
        o = SymStr.of(old).chars()
        nw = SymStr.of(new).chars()
        n = len(o)
        done = 0
        if n == 0:
            return self.concrete().replace("", new, count)
        while i < len(c):
            if (count < 0 or done < count) and i + n <= len(c) and bool(
                V.truth(V.and_all(ceq(x, y) for x, y in zip(c[i : i + n], o)))
            ):
                out.extend(nw)
                i += n
                done += 1
            else:
                out.append(c[i])
                i += 1
        return SymStr.from_chars(out)

    def split(self, sep=None, maxsplit=-1):
        c = self.chars()
        out = []
        if sep is None:
            cur = []
            for i, ch in enumerate(c):
                if bool(V.truth(is_ws(ch))):
                    if cur:
                        out.append(SymStr.from_chars(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = SymStr.of(SymStr.from_chars(c[i:])).lstrip()
                            return out + ([rest] if len(rest) else [])
                else:
                    cur.append(ch)
            if cur:
                out.append(SymStr.from_chars(cur))
            return out
        i = 0
        n = len(sep)
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(SymStr.from_chars(c[i:j]))
            i = j + n
        out.append(SymStr.from_chars(c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None or maxsplit != 1:
            raise Unsupported("rsplit")
        j = self.rfind(sep)
        if j < 0:
            return [self]
        c = self.chars()
        return [SymStr.from_chars(c[:j]), SymStr.from_chars(c[j + len(sep):])]

    def partition(self, sep):
        j = self.find(sep)
        c = self.chars()
        if j < 0:
            return (self, "", "")
        return (SymStr.from_chars(c[:j]), sep, SymStr.from_chars(c[j + len(sep):]))

    def rpartition(self, sep):
        j = self.rfind(sep)
        c = self.chars()
        if j < 0:
            return ("", "", self)
        return (SymStr.from_chars(c[:j]), sep, SymStr.from_chars(c[j + len(sep):]))

    def splitlines(self):
        return self.concrete().splitlines()

    def join(self, items):
        return join(self, items)

    def isdigit(self):
        if self._chars is None and len(self._parts) == 1 and type(self._parts[0]) is LazyNum \
                and self._parts[0].base == 10 and not self._parts[0].prefix:
            return V.mk_bool(z3.simplify(self._parts[0].e >= 0))
        c = self.chars()
        return V.and_all(is_digit(x) for x in c) if c else False

    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        c = self.chars()
        return V.and_all(is_alpha(x) for x in c) if c else False

    def isalnum(self):
        c = self.chars()
        return V.and_all(is_alnum(x) for x in c) if c else False

    def isspace(self):
        c = self.chars()
        return V.and_all(is_ws(x) for x in c) if c else False

    def isascii(self):
        return True

    def isupper(self):
        c = self.chars()
        return V.and_all([V.or_any(_up(x) for x in c), V.and_all(V.not_(_lo(x)) for x in c)])

    def islower(self):
        c = self.chars()
        return V.and_all([V.or_any(_lo(x) for x in c), V.and_all(V.not_(_up(x)) for x in c)])

    def encode(self, *a):
        raise Unsupported("encode of symbolic string")

    def zfill(self, w):
        c = self.chars()
        return SymStr.from_chars(["0"] * max(0, w - len(c)) + list(c))

    def translate(self, table):
        out = []
        for c in self.chars():
            if type(c) is str:
                r = table.get(ord(c), c)
                out.extend(r if isinstance(r, str) else ([] if r is None else [chr(r)]))
                continue
            for k, r in table.items():
                if bool(V.mk_bool(z3.simplify(c == k))):
                    out.extend(r if isinstance(r, str) else ([] if r is None else [chr(r)]))
                    break
            else:
                out.append(c)
        return SymStr.from_chars(out)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported(f"str.{name} on symbolic string")
        raise AttributeError(f"'str' object has no attribute '{name}'")


def _up(c):
    return c.isupper() if type(c) is str else V.SymBool(rng(c, "A", "Z"))


def _lo(c):
    return c.islower() if type(c) is str else V.SymBool(rng(c, "a", "z"))


def join(sep, items):
    parts = []
    first = True
    items = list(items)
    if len(items) == 1 and type(items[0]) is V.Choice and all(type(a) in (str, SymStr) for _, a in items[0].alts):
        return items[0]
    for i, it in enumerate(items):
        if not isinstance(it, str):
            raise TypeError(f"sequence item {i}: expected str instance, {type(it).__name__} found")
        if not first and (type(sep) is not str or sep):
            parts.append(sep)
        first = False
        parts.append(it if type(it) in (str, SymStr) else SymStr([LazyVal(it)]))
    return SymStr(parts).norm()


def to_str(v):
    """str(v) for a symbolic value"""
    t = type(v)
    if t is SymStr:
        return v
    if t is V.SymInt:
        return SymStr([LazyNum(v.e)])
    if t is V.Choice and all(type(a) is str for _, a in v.alts):
        return v
    if t is V.SymBool:
        return V.mk_choice([(v.e, "True"), (z3.Not(v.e), "False")])
    return SymStr([LazyVal(v)])


def format_value(v, conv, spec):
    """One f-string field."""
    if not V.is_sym(v):
        if conv == -1 or conv is None:
            if type(spec) is str:
                if not spec and type(v) in (list, tuple, set, dict):
                    return SymStr([LazyVal(v)])
                return format(v, spec)
            return format(v, str(spec))
        t = {115: str, 114: repr, 97: ascii}[conv](v)
        return format(t, spec)
    if type(spec) is not str:
        spec = str(spec)
    if conv not in (-1, None, 115):
        return SymStr([LazyVal(v, "r", spec)])
    if type(v) is V.SymInt:
        if not spec:
            return SymStr([LazyNum(v.e)])
        return fmt_int(v, spec)
    if type(v) is SymStr and not spec:
        return v
    return SymStr([LazyVal(v, "s", spec)])


def percent(fmt, args):
    """'..%s..' % args with symbolic arguments (%s, %d, %i, %x, %X, %r, %%)."""
    if type(fmt) is not str:
        fmt = SymStr.of(fmt).concrete()
    if type(args) is not tuple:
        args = (args,)
    out = []
    i = ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in "#0123456789":
            j += 1
        flags, k = fmt[i + 1 : j], fmt[j]
        if k == "%":
            out.append("%")
        else:
            if ai >= len(args):
                raise TypeError("not enough arguments for format string")
            a = args[ai]
            ai += 1
            if k in "dixX":
                if type(a) is V.Choice:
                    a = a.resolve()
                if type(a) is V.SymInt:
                    out.append(fmt_int(a, flags + {"i": "d"}.get(k, k)))
                else:
                    out.append(("%" + flags + k) % a)
            elif k in "sr":
                out.append(format_value(a, 114 if k == "r" else 115, "") if not flags else ("%" + flags + k) % (str(a),))
            else:
                raise Unsupported("percent format")
        i = j + 1
    if ai < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return SymStr(out).norm()


def sym_int(s, base=10):
    """int(s, base) for a symbolic string, following CPython's literal grammar (ASCII only)."""
    eng = Engine.current

    def bad():
        raise ValueError(f"invalid literal for int() with base {base}")

    if s._chars is None:
        ps = s._parts
        if len(ps) == 1 and type(ps[0]) is LazyNum:
            p = ps[0]
            if (p.base == base and p.prefix in ("", "0x", "0X", "0b")) or (
                base == 0 and (p.base == 10 or p.prefix) and not p.width
            ):
                return V.mk_int(z3.simplify(p.e))
        if len(ps) == 2 and type(ps[0]) is str and type(ps[1]) is LazyNum and not ps[1].prefix:
            pre = ps[0].lower()
            pb = {"0x": 16, "0b": 2, "0o": 8}.get(pre)
            if pb == ps[1].base and base in (0, pb) and eng.decide(ps[1].e >= 0):
                return V.mk_int(z3.simplify(ps[1].e))
            if ps[0].strip("0") == "" and ps[1].base == base and eng.decide(ps[1].e >= 0):
                return V.mk_int(z3.simplify(ps[1].e))
    t = s.strip()
    c = list(SymStr.of(t).chars())
    if not c:
        bad()

    def is_c(ch, *opts):
        return bool(V.truth(V.or_any(ceq(ch, o) for o in opts)))

    neg = False
    if is_c(c[0], "-"):
        neg = True
        c = c[1:]
    elif is_c(c[0], "+"):
        c = c[1:]
    if not c:
        bad()
    prefixed = False
    b = base
    if len(c) >= 2 and base in (0, 16, 8, 2) and is_c(c[0], "0"):
        for pb, x in ((16, "x"), (2, "b"), (8, "o")):
            if base in (0, pb) and is_c(c[1], x, x.upper()):
                c = c[2:]
                prefixed = True
                b = pb
                if c and is_c(c[0], "_"):
                    c = c[1:]
                break
    if b == 0:
        b = 10
    if not c:
        bad()
    alld = V.and_all(valid_digit(x, b) for x in c)
    if not bool(V.truth(alld)):
        # underscores between digits
        ds = []
        prev_us = True
        for x in c:
            if bool(V.truth(valid_digit(x, b))):
                ds.append(x)
                prev_us = False
            elif not prev_us and is_c(x, "_"):
                prev_us = True
            else:
                bad()
        if prev_us:
            bad()
        c = ds
    if base == 0 and not prefixed and len(c) > 1 and is_c(c[0], "0"):
        # leading zeros only allowed for zero itself
        if not bool(V.truth(V.and_all(ceq(x, "0") for x in c))):
            bad()
    e = z3.IntVal(0)
    for x in c:
        e = e * b + digit_val(x)
    e = z3.simplify(e)
    if neg:
        e = z3.simplify(-e)
    return V.mk_int(e)
