"""Small backtracking matcher for re patterns over symbolic strings (character tests go through decide)."""
import re
import re._parser as P
import re._constants as C

import z3

from .engine import Unsupported, Engine
from . import values as V
from .symstr import SymStr, LazyNum, ceq, is_digit, is_ws, is_alnum, code, lower

_cache = {}


def parse(pattern, flags=0):
    k = (pattern, int(flags))
    if k not in _cache:
        _cache[k] = P.parse(pattern, int(flags))
    return _cache[k]


class SymMatch:
    def __init__(self, s, span, groups, names):
        self.string, self._span, self._groups, self._names = s, span, groups, names
        self.lastindex = max(groups) if groups else None

    def _one(self, g):
        if isinstance(g, str):
            g = self._names[g]
        if g == 0:
            a, b = self._span
        else:
            r = self._groups.get(g)
            if r is None:
                return None
            a, b = r
        return SymStr.from_chars(self.string.chars()[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        n = self._n
        out = []
        for i in range(1, n + 1):
            v = self._one(i)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (default if self._one(v) is None else self._one(v)) for k, v in self._names.items()}

    def span(self, g=0):
        return self._span if g == 0 else self._groups[g]

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]


def _cat(cat, c):
    if cat in (C.CATEGORY_DIGIT,):
        return is_digit(c)
    if cat is C.CATEGORY_NOT_DIGIT:
        return V.not_(is_digit(c))
    if cat is C.CATEGORY_SPACE:
        return is_ws(c)
    if cat is C.CATEGORY_NOT_SPACE:
        return V.not_(is_ws(c))
    if cat is C.CATEGORY_WORD:
        return V.or_any([is_alnum(c), ceq(c, "_")])
    if cat is C.CATEGORY_NOT_WORD:
        return V.not_(V.or_any([is_alnum(c), ceq(c, "_")]))
    raise Unsupported(f"regex category {cat}")


def _in(items, c, icase):
    neg = False
    conds = []
    cs = [c]
    if icase:
        lc = lower(c)
        from .symstr import upper

        cs = [lc, upper(c)]
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds += [ceq(x, chr(av)) for x in cs]
        elif op is C.RANGE:
            for x in cs:
                if type(x) is str:
                    conds.append(av[0] <= ord(x) <= av[1])
                else:
                    conds.append(V.SymBool(z3.And(code(x) >= av[0], code(x) <= av[1])))
        elif op is C.CATEGORY:
            conds.append(_cat(av, c))
        else:
            raise Unsupported(f"regex set {op}")
    r = V.or_any(conds)
    return V.not_(r) if neg else r


def _dec(b):
    return bool(V.truth(b))


def _m(nodes, k, chars, i, g, flags, cont):
    """match nodes[k:] at i then cont(i, g); returns result of cont or None."""
    if k == len(nodes):
        return cont(i, g)
    op, av = nodes[k]
    icase = flags & re.I

    def nxt(i2, g2):
        return _m(nodes, k + 1, chars, i2, g2, flags, cont)

    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        if i >= len(chars):
            return None
        c = chars[i]
        if op is C.LITERAL:
            t = ceq(lower(c), chr(av).lower()) if icase else ceq(c, chr(av))
        elif op is C.NOT_LITERAL:
            t = V.not_(ceq(lower(c), chr(av).lower()) if icase else ceq(c, chr(av)))
        elif op is C.ANY:
            t = True if flags & re.S else V.not_(ceq(c, "\n"))
        else:
            t = _in(av, c, icase)
        return nxt(i + 1, g) if _dec(t) else None
    if op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return nxt(i, g) if i == 0 else None
        if av is C.AT_END_STRING:
            return nxt(i, g) if i == len(chars) else None
        if av is C.AT_END:
            if i == len(chars) or (i == len(chars) - 1 and _dec(ceq(chars[i], "\n"))):
                return nxt(i, g)
            return None
        raise Unsupported(f"regex at {av}")
    if op is C.SUBPATTERN:
        group, add, dele, p = av
        f2 = (flags | add) & ~dele

        def done(i2, g2):
            if group is not None:
                g2 = dict(g2)
                g2[group] = (i, i2)
            return nxt(i2, g2)

        return _m(list(p), 0, chars, i, g, f2, done)
    if op is C.BRANCH:
        for alt in av[1]:
            r = _m(list(alt), 0, chars, i, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, p = av
        p = list(p)

        def rep(n, i2, g2, last):
            if op is C.MAX_REPEAT:
                if n < hi and not (n > lo and i2 == last):
                    r = _m(p, 0, chars, i2, g2, flags, lambda i3, g3: rep(n + 1, i3, g3, i2))
                    if r is not None:
                        return r
                return nxt(i2, g2) if n >= lo else None
            if n >= lo:
                r = nxt(i2, g2)
                if r is not None:
                    return r
            if n < hi and not (n > lo and i2 == last):
                return _m(p, 0, chars, i2, g2, flags, lambda i3, g3: rep(n + 1, i3, g3, i2))
            return None

        return rep(0, i, g, -1)
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        if direction < 0:
            raise Unsupported("regex lookbehind")
        r = _m(list(p), 0, chars, i, g, flags, lambda a, b: (a, b))
        ok = r is not None
        if (op is C.ASSERT) == ok:
            return nxt(i, r[1] if r else g)
        return None
    raise Unsupported(f"regex op {op}")


class _Nfa:
    """Thompson automaton of a pattern without groups, assertions and back references."""

    def __init__(self, nodes, flags):
        self.eps, self.step = {}, {}
        self.n = 0
        a = self.new()
        self.start, self.end = a, self.seq(nodes, flags, a)

    def new(self):
        self.n += 1
        return self.n

    def edge(self, a, b, kind=""):
        self.eps.setdefault(a, []).append((kind, b))

    def seq(self, nodes, flags, a):
        for op, av in nodes:
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                b = self.new()
                self.step.setdefault(a, []).append((op, av, flags, b))
                a = b
            elif op is C.AT:
                kind = {C.AT_BEGINNING: "^", C.AT_BEGINNING_STRING: "^", C.AT_END: "$", C.AT_END_STRING: "$"}.get(av)
                if kind is None or flags & re.M:
                    raise LookupError
                b = self.new()
                self.edge(a, b, kind)
                a = b
            elif op is C.SUBPATTERN:
                a = self.seq(list(av[3]), (flags | av[1]) & ~av[2], a)
            elif op is C.BRANCH:
                b = self.new()
                for alt in av[1]:
                    c = self.new()
                    self.edge(a, c)
                    self.edge(self.seq(list(alt), flags, c), b)
                a = b
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                p = list(p)
                if lo > 40 or (hi is not C.MAXREPEAT and hi > 40):
                    raise LookupError
                for _ in range(lo):
                    a = self.seq(p, flags, a)
                if hi is C.MAXREPEAT:
                    b = self.new()
                    self.edge(a, b)
                    self.edge(self.seq(p, flags, b), b)
                    a = b
                else:
                    b = self.new()
                    for _ in range(hi - lo):
                        self.edge(a, b)
                        a = self.seq(p, flags, a)
                    self.edge(a, b)
                    a = b
            else:
                raise LookupError
        return a

    def close(self, states, first=False, last=False):
        out, todo = set(states), list(states)
        while todo:
            for kind, b in self.eps.get(todo.pop(), ()):
                if b not in out and (not kind or (kind == "^" and first) or (kind == "$" and last)):
                    out.add(b)
                    todo.append(b)
        return frozenset(out)

    def take(self, states, c, mode):
        out = set()
        for q in states:
            for op, av, flags, b in self.step.get(q, ()):
                icase = flags & re.I
                if op is C.IN:
                    t = _in(av, c, icase)
                elif op is C.ANY:
                    t = bool(flags & re.S) or c != "\n"
                else:
                    t = (c.lower() == chr(av).lower() if icase else c == chr(av)) == (op is C.LITERAL)
                if _dec(t):
                    out.add(b)
        out = set(self.close(out))
        if mode != "fullmatch" and self.end in states:
            out.add(self.end)
        return frozenset(out)


def _decided(nodes, parts, mode, flags):
    """does the pattern match a text with numbers in it, whatever their digits? (None: depends on the digits)"""
    if any(type(p) is not str and not (type(p) is LazyNum and not p.width) for p in parts):
        return None
    try:
        nfa = _Nfa(nodes, flags)
    except LookupError:
        return None
    if type(parts[-1]) is str and parts[-1].endswith("\n"):
        return None
    begin = nfa.close({nfa.start}, first=True)
    sets = {(begin, True)}
    plain = nfa.close({nfa.start})

    def step(sts, c):
        out = set()
        for q, first in sts:
            r = nfa.take(q, c, mode)
            out.add((r | plain if mode == "search" else r, False))
        return out

    for p in parts:
        if type(p) is str:
            for c in p:
                sets = step(sets, c)
            continue
        k = p._known()
        if k is None:
            head = p.prefix if Engine.current.decide(p.e >= 0) else "-" + p.prefix
        for c in k if k is not None else head:
            sets = step(sets, c)
        if k is not None:
            continue
        digits = "0123456789abcdef"[: p.base]
        if p.upper:
            digits = digits.upper()
        done = set(step(sets, "0"))
        todo = set()
        for d in digits[1:]:
            todo |= step(sets, d)
        seen = set()
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            for d in digits:
                todo |= step({q}, d)
        sets = done | seen
        if len(sets) > 200:
            return None
    verdicts = {nfa.end in nfa.close(q, first, True) for q, first in sets}
    return verdicts.pop() if len(verdicts) == 1 else None


class LazyMatch:
    """a match that is certain; where it lies is worked out when asked for"""

    def __init__(self, again, groups):
        self._again, self._real, self._n = again, None, groups

    def __getattr__(self, k):
        if self._real is None:
            self._real = self._again()
        return getattr(self._real, k)

    def __getitem__(self, g):
        return self.__getattr__("__getitem__")(g)


def do_match(pattern, s, mode, flags=0, start=0, lazy=True):
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags
        pattern = pattern.pattern
    tree = parse(pattern, flags)
    nodes = list(tree)
    flags = int(tree.state.flags)
    s = SymStr.of(s)
    if lazy and not start and s._chars is None and s._parts and any(type(p) is LazyNum for p in s._parts):
        sure = _decided(nodes, s._parts, mode, flags)
        if sure is False:
            return None
        if sure:
            return LazyMatch(lambda: do_match(pattern, s, mode, flags, 0, False), tree.state.groups - 1)
    chars = s.chars()

    def fin(i, g):
        if mode == "fullmatch" and i != len(chars):
            return None
        return (i, g)

    for st in range(start, len(chars) + 1) if mode == "search" else [start]:
        r = _m(nodes, 0, chars, st, {}, flags, fin)
        if r is not None:
            m = SymMatch(s, (st, r[0]), r[1], dict(tree.state.groupdict))
            m._n = tree.state.groups - 1
            return m
    return None


def do_iter(pattern, s, flags=0):
    out = []
    s = SymStr.of(s)
    pos = 0
    while pos <= len(s.chars()):
        m = do_match(pattern, s, "search", flags, pos)
        if m is None:
            break
        out.append(m)
        pos = m.end() if m.end() > m.start() else m.end() + 1
    return out


def do_sub(pattern, repl, s, count=0, flags=0):
    s = SymStr.of(s)
    c = s.chars()
    parts, pos, n = [], 0, 0
    for m in do_iter(pattern, s, flags):
        if count and n >= count:
            break
        a, b = m.span()
        parts.extend(c[pos:a])
        r = repl(m) if callable(repl) else repl
        if type(r) is str and "\\" in r and not callable(repl):
            for lit in re.split(r"(\\g<\w+>|\\\d)", r):
                g = re.fullmatch(r"\\g<(\w+)>|\\(\d)", lit)
                if g is None:
                    if "\\" in lit:
                        raise Unsupported("regex template")
                    parts.extend(lit)
                else:
                    k = g[1] or g[2]
                    v = m.group(int(k) if k.isdigit() else k)
                    parts.extend(SymStr.of(v if v is not None else "").chars())
            pos = b
            n += 1
            continue
        parts.extend(SymStr.of(r).chars())
        pos = b
        n += 1
    parts.extend(c[pos:])
    return SymStr.from_chars(parts)


def do_split(pattern, s, maxsplit=0, flags=0):
    s = SymStr.of(s)
    c = s.chars()
    out, pos = [], 0
    for n, m in enumerate(do_iter(pattern, s, flags)):
        if maxsplit and n >= maxsplit:
            break
        out.append(SymStr.from_chars(c[pos : m.start()]))
        out.extend(m.groups())
        pos = m.end()
    out.append(SymStr.from_chars(c[pos:]))
    return out


def do_findall(pattern, s, flags=0):
    out = []
    for m in do_iter(pattern, s, flags):
        gs = m.groups("")
        out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
    return out
