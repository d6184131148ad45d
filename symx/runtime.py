"""Runtime support called from rewritten code (name `_sx`)."""
import builtins
import collections
import enum
import functools
import operator
import re
import types
import warnings as _warnings

import z3

from . import values as V
from . import symstr as S
from . import regex as R
from .engine import Engine, Unsupported, NeedFork
from .values import Sym, SymBool, SymInt, Choice, is_sym
from .symstr import SymStr

PH0 = 0xE000  # private use area: one placeholder character per symbolic string handed to native code
PH1 = 0xF8FF
_PH = re.compile("[\ue000-\uf8ff]")


# ------------------------------------------------------------------------------------------ native boundary
def lower_native(x):
    """Replace symbolic strings by placeholder text before handing a value to native (lxml) code."""
    t = type(x)
    if t is Choice:
        if all(type(v) in (str, SymStr) for _, v in x.alts):
            e = Engine.current
            k = PH0 + e.placeholder_n
            if k > PH1:
                raise Unsupported("placeholders exhausted")
            e.placeholder_n += 1
            e.placeholders[chr(k)] = x
            return chr(k)
        x = x.resolve()
        t = type(x)
    if t is SymStr:
        e = Engine.current
        out = []
        for p in x.parts():
            if type(p) is str:
                out.append(p)
            else:
                k = PH0 + e.placeholder_n
                if k > PH1:
                    raise Unsupported("placeholders exhausted")
                e.placeholder_n += 1
                e.placeholders[chr(k)] = p
                out.append(chr(k))
        return "".join(out)
    if t is dict:
        return {lower_native(k): lower_native(v) for k, v in x.items()}
    return x


def lift(x):
    """Inverse of lower_native for strings coming back from native code."""
    t = type(x)
    if t is str:
        if x.isascii():
            return x
        e = Engine.current
        if e is None or not e.placeholders or not _PH.search(x):
            return x
        if len(x) == 1 and type(e.placeholders.get(x)) is Choice:
            return e.placeholders[x]
        parts, cur = [], []
        for ch in x:
            p = e.placeholders.get(ch)
            if type(p) is Choice:
                p = S.LazyVal(p)
            if p is None:
                cur.append(ch)
            else:
                if cur:
                    parts.append("".join(cur))
                    cur = []
                parts.append(p)
        if cur:
            parts.append("".join(cur))
        return SymStr(parts)
    if t is list:
        return [lift(i) for i in x] if any(type(i) in (str, tuple) for i in x) else x
    if t is tuple:
        return tuple(lift(i) for i in x)
    return x


def lift_deep(x):
    t = type(x)
    if t is dict:
        return {lift_deep(k): lift_deep(v) for k, v in x.items()}
    return lift(x)


LIFT_ATTRS = {"text", "tail", "tag"}


def getattr_lift(o, name):
    v = getattr(o, name)
    return lift(v) if type(v) is str else v


def setattr_lower(o, name, v):
    if is_sym(v) and type(o).__module__.startswith("lxml"):
        v = lower_native(v)
    setattr(o, name, v)


# ------------------------------------------------------------------------------------------ operators
def not_(x):
    return V.not_(x)


def is_(a, b):
    if is_sym(a) or is_sym(b):
        return V.is_(a, b)
    return a is b


def isnot(a, b):
    if is_sym(a) or is_sym(b):
        return V.not_(V.is_(a, b))
    return a is not b


def in_(a, b):
    e = Engine.current
    if is_sym(a) or is_sym(b) or type(b) in (list, tuple) or (e is not None and e.symkeyed):
        return V.contains(b, a)
    return a in b


def notin(a, b):
    return V.not_(in_(a, b))


def _merge2(c, fa, fb):
    """Evaluate both branches under c / not c without forking; None if impossible."""
    e = Engine.current
    ce = z3.simplify(c.e)
    if z3.is_true(ce):
        return (fa(),)
    if z3.is_false(ce):
        return (fb(),)
    key = ce.get_id()
    for m in reversed(e.memo):
        hit = m.get(key)
        if hit is not None:
            return (fa(),) if hit[1] else (fb(),)
    ok, a = e.speculate(ce, fa)
    if not ok or not V.mergeable(a):
        return None
    ok, b = e.speculate(z3.Not(ce), fb)
    if not ok or not V.mergeable(b):
        return None
    return (V.ite(c, a, b),)


def truth(x):
    return V.truth(x) if is_sym(x) else x


def summarize(f):
    """Decorator put on syntactically pure functions: all paths of one call are merged into one value."""
    import functools

    @functools.wraps(f)
    def wrapper(*a, **k):
        e = Engine.current
        if e is None or e.spec or e.local is not None or _plain_args(a, k):
            return f(*a, **k)
        if e.flags.get("nosum", {}).get(f):
            return f(*a, **k)
        n = len(e.path_warnings)
        per_path = []

        def once():
            del e.path_warnings[n:]
            r = f(*a, **k)
            per_path.append(e.path_warnings[n:])
            return r

        ok, paths = e.summarize(once)
        del e.path_warnings[n:]
        if ok:
            r = (paths[0][1],) if len(paths) == 1 else _merge_paths(paths)
            if r is not None:
                for (conds, _), ws in zip(paths, per_path):
                    for c, m, g in ws:
                        e.path_warnings.append((c, m, V.and_all([g] + [V.mk_bool(x) for x in conds])))
                return r[0]
            e.flags.setdefault("nosum", {})[f] = True
        return f(*a, **k)

    return wrapper


_PLAIN = (int, str, bool, type(None), float, type, enum.EnumType)


def _plain_args(a, k):
    for x in a:
        if type(x) not in _PLAIN:
            return False
    for x in k.values():
        if type(x) not in _PLAIN:
            return False
    return True


def _merge_paths(paths):
    vals = [v for _, v in paths]
    conds = [z3.And(*c) if len(c) != 1 else c[0] for c, _ in paths]
    if all(type(v) is tuple and len(v) == len(vals[0]) for v in vals):
        out = []
        for i in range(len(vals[0])):
            if not all(V.mergeable(v[i]) for v in vals):
                return None
            out.append(V.mk_choice([(c, v[i]) for c, v in zip(conds, vals)]))
        return (tuple(out),)
    if not all(V.mergeable(v) for v in vals):
        return None
    return (V.mk_choice(list(zip(conds, vals))),)


def ifexp(c, fa, fb):
    if is_sym(c):
        c = V.truth(c)
        if type(c) is SymBool and Engine.current.local is None:
            r = _merge2(c, fa, fb)
            if r is not None:
                return r[0]
            return fa() if bool(c) else fb()
    return fa() if c else fb()


def and_(fa, fb):
    a = fa()
    if is_sym(a):
        t = V.truth(a)
        if type(t) is SymBool and Engine.current.local is None:
            if type(a) is SymBool:
                ok, b = Engine.current.speculate(t.e, fb)
                if ok and type(b) in (bool, SymBool):
                    return V.and_all([t, b])
                # infeasible speculation leaves ok False; fall back to a fork
                if not bool(t):
                    return False
                return fb()
            r = _merge2(t, fb, lambda: a)
            if r is not None:
                return r[0]
            return fb() if bool(t) else a
        return fb() if t else a
    return fb() if a else a


def or_(fa, fb):
    a = fa()
    if is_sym(a):
        t = V.truth(a)
        if type(t) is SymBool and Engine.current.local is None:
            if type(a) is SymBool:
                ok, b = Engine.current.speculate(z3.Not(t.e), fb)
                if ok and type(b) in (bool, SymBool):
                    return V.or_any([t, b])
                if bool(t):
                    return True
                return fb()
            r = _merge2(t, lambda: a, fb)
            if r is not None:
                v = r[0]
                return v
            return a if bool(t) else fb()
        return a if t else fb()
    return a if a else fb()


def fstr(*parts):
    """parts: plain strings or (value, conversion, spec) tuples."""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v = S.format_value(*p)
            if is_sym(v):
                sym = True
                if type(v) is Choice:
                    v = SymStr([S.LazyVal(v)])
            out.append(v)
    if not sym:
        return "".join(out)
    return SymStr(out).norm()


def mod(a, b):
    if type(a) is str:
        if type(b) is tuple:
            if any(is_sym(i) for i in b):
                return S.percent(a, b)
        elif is_sym(b):
            return S.percent(a, (b,))
    return a % b


def _symset(x):
    e = Engine.current
    return e is not None and e.symkeyed and id(x) in e.symkeyed


def setop(op, a, b):
    e = Engine.current
    if type(a) in (set, frozenset) and type(b) in (set, frozenset) and (_symset(a) or _symset(b)):
        if op == "-":
            return mkset([x for x in list(a) if not bool(V.truth(V.contains(b, x)))])
        if op == "&":
            return mkset([x for x in list(a) if bool(V.truth(V.contains(b, x)))])
        if op == "|":
            return mkset(list(a) + list(b))
        if op == "^":
            return mkset(
                [x for x in list(a) if not bool(V.truth(V.contains(b, x)))]
                + [x for x in list(b) if not bool(V.truth(V.contains(a, x)))]
            )
    return {"-": operator.sub, "&": operator.and_, "|": operator.or_, "^": operator.xor}[op](a, b)


def _mark(c):
    # keep the container alive so that its id stays valid for the path
    Engine.current.symkeyed[id(c)] = c


def set_add(s, x):
    if type(x) is Choice:
        x = x.resolve()
    if is_sym(x) or (_symset(s) and _hasky(x)):
        for m in list(s):
            if m is x or bool(V.truth(V.eq(m, x))):
                return
        if is_sym(x):
            e = Engine.current
            _mark(s)
            e.flags["rawhash"] = True
            try:
                set.add(s, x)
            finally:
                e.flags["rawhash"] = False
            return
    set.add(s, x)


def _hasky(x):
    return isinstance(x, (int, str))


def mkset(items):
    s = set()
    for i in items:
        set_add(s, i)
    return s


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k, v in p[0].items():
                setitem(d, k, v)
        else:
            setitem(d, p[0], p[1])
    return d


def _find_key(d, k):
    for m in list(dict.keys(d)):
        if m is k or bool(V.truth(V.eq(m, k))):
            return (m,)
    return None


def _raw(f, *a):
    e = Engine.current
    if e is None:
        return f(*a)
    e.flags["rawhash"] = True
    try:
        return f(*a)
    finally:
        e.flags["rawhash"] = False


def _tuple_sym(k):
    return type(k) is tuple and any(is_sym(i) for i in k)


_SIMPLE = (type(None), bool, int, str, SymInt, V.SymBool)


def _lookup_merged(d, k):
    """d[k] for a dict of plain values without a fork per key: (hit condition, merged value) or None."""
    if not d or len(d) > 64 or not is_sym(k):
        return None
    for v in _raw(lambda: list(dict.values(d))):
        if type(v) not in _SIMPLE and not isinstance(v, enum.Enum):
            return None
    pairs = []
    for m in list(dict.keys(d)):
        v = _raw(dict.__getitem__, d, m)
        if m is k:
            return True, v
        c = V.truth(V.eq(m, k))
        if c is True:
            return True, v
        if c is not False:
            pairs.append((c, v))
    if not pairs:
        return False, None
    r = pairs[-1][1]
    for c, v in reversed(pairs[:-1]):
        r = V.ite(c, v, r)
    return V.or_any([c for c, _ in pairs]), r


def _missing(o, k):
    if isinstance(o, collections.Counter):
        return 0
    if isinstance(o, collections.defaultdict):
        if o.default_factory is None:
            raise KeyError(k)
        v = o.default_factory()
        setitem(o, k, v)
        return v
    if hasattr(o, "__missing__"):
        raise Unsupported("__missing__ with symbolic key")
    raise KeyError(k)


def b_len(x):
    t = type(x)
    if t is SymStr:
        return x.length()
    if t is Choice:
        x = x.narrow(lambda v: type(v) in (str, SymStr, list, tuple))
        if type(x) is Choice:
            return x.map(b_len)
        return b_len(x)
    return len(x)


def b_counter(*a, **k):
    if k or not a or isinstance(a[0], dict):
        return collections.Counter(*a, **k)
    c = collections.Counter()
    for x in a[0]:
        setitem(c, x, getitem(c, x) + 1)
    return c


def getitem(o, k):
    t = type(o)
    if t is dict or (isinstance(o, dict) and not is_sym(o)):
        hit = _lookup_merged(o, k)
        if hit is not None:
            if bool(hit[0]):
                return hit[1]
            return _missing(o, k)
        if type(k) is Choice:
            k = k.resolve()
        if is_sym(k) or _symset(o):
            f = _find_key(o, k)
            if f is None:
                return _missing(o, k)
            return _raw(dict.__getitem__, o, f[0])
        return o[k]
    if type(k) is Choice:
        if isinstance(o, type) and issubclass(o, enum.Enum):
            r = _enum_map(k, lambda v: o[v], KeyError)
            if r is not None:
                return r
        k = k.resolve()
    r = o[k] if not (isinstance(o, type) and issubclass(o, enum.Enum) and is_sym(k)) else _enum_by_name(o, k)
    return lift(r) if type(r) is str else r


def _enum_map(x, f, err):
    """All alternatives of a Choice of plain strings mapped at once, None if one of them is invalid."""
    if not all(type(v) is str for _, v in x.alts):
        return None
    try:
        return x.map(f)
    except err:
        return None


def _enum_by_name(cls, k):
    for n, m in cls.__members__.items():
        if bool(V.truth(V.eq(k, n))):
            return m
    raise KeyError(k)


def setitem(o, k, v):
    if type(o) is dict or (isinstance(o, dict) and not is_sym(o)):
        if type(k) is Choice:
            k = k.resolve()
        if is_sym(k) or _symset(o):
            f = _find_key(o, k)
            if f is not None:
                return _raw(dict.__setitem__, o, f[0], v)
            if is_sym(k):
                _mark(o)
                return _raw(dict.__setitem__, o, k, v)
        o[k] = v
        return
    if type(k) is Choice:
        k = k.resolve()
    if type(o).__module__.startswith("lxml") and is_sym(v):
        v = lower_native(v)
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and (is_sym(k) or _symset(o)):
        f = _find_key(o, k)
        if f is None:
            raise KeyError(k)
        return _raw(dict.__delitem__, o, f[0])
    if is_sym(k):
        k = k.__index__() if not isinstance(k, str) else k
    del o[k]


def resolve(x):
    return x.resolve() if type(x) is Choice else x


# ------------------------------------------------------------------------------------------ builtins
def b_int(*a, **k):
    if not a or not (is_sym(a[0]) or (len(a) > 1 and is_sym(a[1]))):
        return int(*a, **k)
    x = resolve(a[0])
    base = k.get("base", a[1] if len(a) > 1 else None)
    if type(x) is SymInt:
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return x
    if type(x) is SymBool:
        return x._i()
    if type(x) is SymStr:
        return S.sym_int(x, 10 if base is None else V.conc_int(base))
    return int(x, *a[1:], **k)


def b_str(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return S.to_str(a[0])
    return str(*a, **k)


def b_bool(*a):
    return V.truth(a[0]) if a and is_sym(a[0]) else bool(*a)


def b_hex(x):
    x = resolve(x)
    if type(x) is SymInt:
        return SymStr([S.LazyNum(x.e, 16, "0x")])
    return hex(x)


def b_bin(x):
    x = resolve(x)
    if type(x) is SymInt:
        return SymStr([S.LazyNum(x.e, 2, "0b")])
    return bin(x)


def b_oct(x):
    x = resolve(x)
    if type(x) is SymInt:
        return SymStr([S.LazyNum(x.e, 8, "0o")])
    return oct(x)


def b_format(v, spec=""):
    return S.format_value(v, -1, spec)


def b_abs(x):
    return abs(resolve(x))


def _b_maxmin(args, kw, smallest):
    f = min if smallest else max
    if kw.get("key") is not None:
        return f(*args, **kw)
    seq = list(args[0]) if len(args) == 1 else list(args)
    seq = [resolve(v) if type(v) is Choice else v for v in seq]
    if seq and any(type(v) is SymInt for v in seq) and all(type(v) in (int, SymInt, bool) for v in seq):
        return V.sym_max(seq, smallest)
    if len(args) == 1:
        return f(seq, **kw)
    return f(*seq, **kw)


def b_max(*a, **k):
    return _b_maxmin(a, k, False)


def b_min(*a, **k):
    return _b_maxmin(a, k, True)


def b_range(*a):
    a = [resolve(x) if is_sym(x) else x for x in a]
    if len(a) == 2 and type(a[0]) is SymInt:
        n = V.conc_int(a[1] - a[0])
        return [a[0] + i for i in range(n)]
    return range(*[V.conc_int(x) if is_sym(x) else x for x in a])


def b_isinstance(x, t):
    if is_sym(x):
        if type(x) is Choice:
            rs = [(g, b_isinstance(v, t)) for g, v in x.alts]
            if all(type(r) is bool for _, r in rs):
                if len({r for _, r in rs}) == 1:
                    return rs[0][1]
                return V.mk_choice(rs)
            x = x.resolve()
            if not is_sym(x):
                return isinstance(x, t)
        if is_sym(x):
            c = x.__class__
            try:
                return issubclass(c, t)
            except TypeError:
                return isinstance(x, t)
    return isinstance(x, t)


def b_type(*a):
    if len(a) == 1:
        if is_sym(a[0]):
            return a[0].__class__
        return type(a[0])
    return type(*a)


def b_set(*a):
    if a:
        items = list(a[0])
        if any(is_sym(i) for i in items) or _symset(a[0]):
            return mkset(items)
        return set(items)
    return set()


def b_frozenset(*a):
    if a:
        items = list(a[0])
        if any(is_sym(i) for i in items):
            return mkset(items)
        return frozenset(items)
    return frozenset()


def b_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        items = list(a[0])
        if any(is_sym(p[0]) for p in items):
            return mkdict([tuple(p) for p in items] + [(x, y) for x, y in k.items()])
        return dict(items, **k)
    if a and _symset(a[0]):
        d = _raw(dict, a[0])
        _mark(d)
        return d
    return dict(*a, **k)


def b_pow(a, b, *m):
    return pow(resolve(a), resolve(b), *m)


def b_divmod(a, b):
    a, b = resolve(a), resolve(b)
    if is_sym(a) or is_sym(b):
        return (a // b, a % b)
    return divmod(a, b)


def b_ord(c):
    c = resolve(c)
    if type(c) is SymStr:
        ch = c.chars()
        if len(ch) != 1:
            raise TypeError(f"ord() expected a character, but string of length {len(ch)} found")
        return ord(ch[0]) if type(ch[0]) is str else SymInt(ch[0])
    return ord(c)


def b_chr(i):
    i = resolve(i)
    if type(i) is SymInt:
        e = Engine.current
        if bool(V.truth(V.and_all([i >= 0, i < 128]))):
            return SymStr.from_chars([i.e])
        return chr(i.__index__())
    return chr(i)


def b_any(it):
    # stays lazy (short circuit) but merges consecutive pure booleans
    for x in it:
        if bool(V.truth(x)) if is_sym(x) else x:
            return True
    return False


def b_all(it):
    for x in it:
        if not (bool(V.truth(x)) if is_sym(x) else x):
            return False
    return True


def b_getattr(o, name, *d):
    if type(name) is Choice or type(name) is SymStr:
        name = name.resolve() if type(name) is Choice else name.concrete()
    if d:
        try:
            return lift(getattr(o, name))
        except AttributeError:
            return d[0]
    return lift(getattr(o, name))


def b_repr(x):
    if is_sym(x):
        return SymStr([S.LazyVal(x, "r")])
    return repr(x)


def b_hasattr(x, name):
    if type(x) is Choice:
        r = {b_hasattr(v, name) for _, v in x.alts}
        if len(r) == 1:
            return r.pop()
        return hasattr(x.resolve(), name)
    return hasattr(x, name)


def b_id(x):
    return id(resolve(x))


def b_print(*a, **k):
    return None


def b_round(x, *a):
    x = resolve(x)
    return x if type(x) is SymInt and not a else round(x, *a)


def w_warn(message, category=None, stacklevel=1, source=None, **k):
    e = Engine.current
    if isinstance(message, Warning):
        category = type(message)
        message = message.args[0] if message.args else ""
    g = V.and_all(e.guards)
    if type(g) is SymBool and z3.is_false(z3.simplify(g.e)):
        return
    e.path_warnings.append(((category or UserWarning), message, g))


def guard(c, fa, fb):
    """Run the two arms of a report-only `if` under their conditions without forking; False: fork instead."""
    e = Engine.current
    if type(c) is not V.SymBool or e.local is not None:
        return False
    n = len(e.path_warnings)
    for cond, f in ((c, fa), (V.not_(c), fb)):
        if f is None or cond is False:
            continue
        e.guards.append(cond)
        try:
            ok, _ = e.speculate(V.to_bool_expr(cond), f)
        finally:
            e.guards.pop()
        if not ok:
            del e.path_warnings[n:]
            return False
    return True


def _re(mode):
    native = getattr(re, mode)

    def f(pattern, string, flags=0):
        string = resolve(string)
        if type(string) is SymStr:
            return R.do_match(pattern, string, mode, flags)
        return native(pattern, string, flags)

    return f


def re_sub(pattern, repl, string, count=0, flags=0):
    string, repl = resolve(string), resolve(repl)
    if type(string) is SymStr or is_sym(repl):
        return R.do_sub(pattern, repl, string, count, flags)
    return re.sub(pattern, repl, string, count=count, flags=flags)


def re_split(pattern, string, maxsplit=0, flags=0):
    string = resolve(string)
    if type(string) is SymStr:
        return R.do_split(pattern, string, maxsplit, flags)
    return re.split(pattern, string, maxsplit=maxsplit, flags=flags)


def re_findall(pattern, string, flags=0):
    string = resolve(string)
    if type(string) is SymStr:
        return R.do_findall(pattern, string, flags)
    return re.findall(pattern, string, flags)


def re_finditer(pattern, string, flags=0):
    string = resolve(string)
    if type(string) is SymStr:
        return iter(R.do_iter(pattern, string, flags))
    return re.finditer(pattern, string, flags)


def patm(name, pat, args, kw):
    s = args[0] if name != "sub" else args[1]
    s = resolve(s)
    if name in ("match", "fullmatch", "search"):
        return R.do_match(pat, s, name)
    if name == "sub":
        return R.do_sub(pat, resolve(args[0]), s, *args[2:], **kw)
    if name == "split":
        return R.do_split(pat, s, *args[1:], **kw)
    if name == "findall":
        return R.do_findall(pat, s)
    if name == "finditer":
        return iter(R.do_iter(pat, s))
    raise Unsupported(f"re.Pattern.{name}")


def enum_call(cls, x):
    if type(x) is Choice:
        r = _enum_map(x, cls, ValueError)
        if r is not None:
            return r
    x = resolve(x)
    if isinstance(x, cls):
        return x
    for m in cls:
        if bool(V.truth(V.eq(m.value, x))):
            return m
    raise ValueError(f"symbolic value is not a valid {cls.__qualname__}")


def itertools_product(*a, **k):
    import itertools

    return itertools.product(*a, **k)


def sorted_(it, /, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


SHIMS = {}
_KEEP = []


def shim(f, g):
    SHIMS[id(f)] = g
    _KEEP.append(f)


for _f, _g in [
    (int, b_int), (str, b_str), (bool, b_bool), (hex, b_hex), (bin, b_bin), (oct, b_oct), (format, b_format),
    (max, b_max), (min, b_min), (range, b_range), (isinstance, b_isinstance), (type, b_type), (set, b_set),
    (frozenset, b_frozenset), (dict, b_dict), (pow, b_pow), (divmod, b_divmod), (ord, b_ord), (chr, b_chr),
    (any, b_any), (all, b_all), (getattr, b_getattr), (repr, b_repr), (print, b_print), (abs, b_abs),
    (round, b_round), (id, b_id), (hasattr, b_hasattr), (collections.Counter, b_counter), (len, b_len),
    (_warnings.warn, w_warn), (re.match, _re("match")), (re.fullmatch, _re("fullmatch")),
    (re.search, _re("search")), (re.sub, re_sub), (re.split, re_split), (re.findall, re_findall),
    (re.finditer, re_finditer),
    (operator.is_, is_), (operator.is_not, isnot), (operator.not_, not_), (operator.truth, b_bool),
    (operator.getitem, getitem), (operator.setitem, setitem), (operator.contains, lambda a, b: in_(b, a)),
]:
    shim(_f, _g)

_BUILTIN = types.BuiltinFunctionType
_DICTS = (dict, collections.defaultdict, collections.OrderedDict, collections.Counter)
_LRU = functools._lru_cache_wrapper
_CMETHOD = type(re.compile("").fullmatch)
_PAT_METHODS = {"match", "fullmatch", "search", "sub", "split", "findall", "finditer"}


def _anysym(a, k):
    for x in a:
        if isinstance(type(x), type) and issubclass(type(x), Sym):
            return True
    for x in k.values():
        if issubclass(type(x), Sym):
            return True
    return False


def fnarg(f):
    """a native function handed to map, filter, sorted, ... as argument"""
    if id(f) in SHIMS or type(f) in (types.MethodDescriptorType, _BUILTIN, _CMETHOD, functools.partial):
        return lambda *a, **k: call(f, *a, **k)
    return f


def _memoised(f, a, k):
    """a call of an lru_cache wrapper: equal arguments give the result of the first call on this path"""
    e = Engine.current
    if e is None or getattr(f, "__module__", "").startswith("oracle"):
        return f(*a, **k)
    if e.spec:
        return f.__wrapped__(*a, **k)
    known = e.calls.setdefault(id(f), [])
    for b, j, r in known:
        if len(a) == len(b) and set(k) == set(j) and bool(V.and_all(
                [x is y or V.truth(V.eq(x, y)) for x, y in zip(a, b)] + [V.truth(V.eq(k[n], j[n])) for n in k])):
            return r
    r = f.__wrapped__(*a, **k)
    known.append((a, k, r))
    return r


_FUNCTION, _METHOD = types.FunctionType, types.MethodType


def call(f, /, *a, **k):
    g = SHIMS.get(id(f))
    if g is not None:
        return g(*a, **k)
    t = type(f)
    if t is _FUNCTION:
        return f(*a, **k)
    if f is map or f is filter or f is functools.reduce:
        return f(fnarg(a[0]), *a[1:])
    if t is _LRU:
        return _memoised(f, a, k)
    if t is _METHOD and type(f.__func__) is _LRU:
        return _memoised(f.__func__, (f.__self__,) + a, k)
    if "key" in k and t is _BUILTIN:
        k = {**k, "key": fnarg(k["key"])}
    if t is types.MethodDescriptorType and a and is_sym(a[0]):
        return getattr(resolve(a[0]), f.__name__)(*a[1:], **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is _METHOD:
        return f(*a, **k) if not _lxml(f.__self__) else _lxml_call(f, a, k)
    if t is _BUILTIN or t is _CMETHOD:
        o = f.__self__
        to = type(o)
        if to is str:
            name = f.__name__
            if name == "join":
                items = list(a[0])
                if any(is_sym(i) for i in items):
                    return S.join(o, items)
                return lift(o.join(items))
            if name == "format":
                if _anysym(a, k):
                    return _str_format(o, a, k)
                return f(*a, **k)
            if _anysym(a, k):
                a = [resolve(x) for x in a]
                if any(type(x) is SymStr for x in a):
                    return getattr(SymStr([o]), name)(*a, **k)
                return f(*[V.conc_int(x) if type(x) is SymInt else x for x in a], **k)
            return f(*a, **k)
        if to in _DICTS:
            name = f.__name__
            if name in ("get", "pop", "setdefault") and (is_sym(a[0]) or _symset(o)):
                hit = _lookup_merged(o, a[0]) if name == "get" else None
                if hit is not None:
                    dflt = a[1] if len(a) > 1 else None
                    if V.mergeable(dflt):
                        return V.ite(hit[0], hit[1], dflt)
                    return hit[1] if bool(hit[0]) else dflt
                key = resolve(a[0])
                fk = _find_key(o, key)
                if name == "get":
                    return _raw(dict.__getitem__, o, fk[0]) if fk else (a[1] if len(a) > 1 else None)
                if name == "pop":
                    if fk:
                        return _raw(dict.pop, o, fk[0])
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(key)
                if fk:
                    return _raw(dict.__getitem__, o, fk[0])
                v = a[1] if len(a) > 1 else None
                setitem(o, key, v)
                return v
            if name == "update" and a:
                src = a[0]
                pairs = list(src.items()) if isinstance(src, dict) else list(src)
                for kk, vv in pairs:
                    setitem(o, kk, vv)
                for kk, vv in k.items():
                    setitem(o, kk, vv)
                return None
            if name == "copy" and _symset(o):
                d = _raw(dict, o)
                _mark(d)
                return d
            return f(*a, **k)
        if to is set:
            name = f.__name__
            if name == "add":
                return set_add(o, a[0])
            if name in ("update", "union", "difference", "intersection", "issubset", "issuperset", "isdisjoint",
                        "discard", "remove", "difference_update", "copy"):
                its = [list(x) if name not in ("discard", "remove") else [x] for x in a]
                if _symset(o) or any(is_sym(i) for it in its for i in it) or any(_symset(x) for x in a):
                    return _set_method(o, name, its)
                if name in ("discard", "remove", "copy"):
                    return f(*a)
                return f(*its)
            return f(*a, **k)
        if to is list:
            name = f.__name__
            if name == "append":
                return f(*a)
            if name in ("index", "count", "remove") and (is_sym(a[0]) or any(is_sym(i) for i in o)):
                x = a[0]
                n = 0
                for i, m in enumerate(list(o)):
                    if m is x or bool(V.truth(V.eq(m, x))):
                        if name == "index":
                            return i
                        if name == "remove":
                            del o[i]
                            return None
                        n += 1
                if name == "count":
                    return n
                raise ValueError("not in list")
            return f(*a, **k)
        if to is re.Pattern and f.__name__ in _PAT_METHODS and _anysym(a, k):
            return patm(f.__name__, o, a, k)
        r = f(*a, **k) if not _lxml(o) else _lxml_call(f, a, k)
        return r
    if isinstance(f, type):
        if t is enum.EnumType and a and _anysym(a, k):
            return enum_call(f, *a)
        return f(*a, **k)
    mod_ = getattr(f, "__module__", None)
    if (mod_ and mod_.startswith("lxml")) or _lxml(getattr(f, "__self__", None)):
        return _lxml_call(f, a, k)
    return f(*a, **k)


def _lxml(o):
    return type(o).__module__.startswith("lxml")


def _lxml_call(f, a, k):
    a = [lower_native(x) for x in a]
    k = {n: lower_native(v) for n, v in k.items()}
    r = f(*a, **k)
    if type(r) in (str, list, tuple, dict):
        return lift_deep(r)
    return r


def _set_method(o, name, its):
    if name == "update":
        for it in its:
            for x in it:
                set_add(o, x)
        return None
    cur = list(o)
    if name == "copy":
        return mkset(cur)
    if name == "union":
        return mkset(cur + [x for it in its for x in it])

    def has(c, x):
        return bool(V.truth(V.contains(c, x)))

    flat = [x for it in its for x in it]
    if name == "difference":
        return mkset([x for x in cur if not has(flat, x)])
    if name == "intersection":
        return mkset([x for x in cur if all(has(it, x) for it in its)])
    if name == "issubset":
        return all(has(flat, x) for x in cur)
    if name == "issuperset":
        return all(has(cur, x) for x in flat)
    if name == "isdisjoint":
        return not any(has(flat, x) for x in cur)
    if name in ("discard", "remove", "difference_update"):
        keep = [x for x in cur if not has(flat, x)]
        if name == "remove" and len(keep) == len(cur):
            raise KeyError(flat[0])
        set.clear(o)
        for x in keep:
            set_add(o, x)
        return None
    raise Unsupported(f"set.{name}")


def _str_format(o, a, k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            m = re.match(r"^(\w+)((?:\.\w+)*)$", field)
            if not m:
                raise Unsupported("str.format field")
            v = a[int(m.group(1))] if m.group(1).isdigit() else k[m.group(1)]
            for at in m.group(2).split(".")[1:]:
                v = getattr(v, at)
        c = {None: -1, "s": 115, "r": 114, "a": 97}[conv]
        v = S.format_value(v, c, spec)
        out.append(SymStr([S.LazyVal(v)]) if type(v) is Choice else v)
    return SymStr(out).norm()


def iter_lift(it):
    """iteration over native containers that may yield placeholder strings"""
    if _lxml(it):
        return (lift(x) if type(x) in (str, tuple) else x for x in it)
    return it
