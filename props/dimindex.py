"""dimIndex text: the four documented forms, anything else is rejected."""
from props.common import *

TOK = "ABYZabyz_019"


def _run(sx, n, text):
    out = process(sx, dev([per("P", 0, [reg("R%s", 0, dim=n, dim_increment=4, dim_index=text)])]))
    sx.observe("outcome", out.kind)
    return out


def _names(out):
    return [r.name for r in sorted(out.value.peripherals[0].registers_clusters, key=lambda r: r.address_offset)]


def numeric(sx, top=130, dims=(1, 4), bases=None):
    """'a-b': consecutive decimal numbers; the count must equal dim"""
    base = sx.pick("base", bases) if bases else 0
    a, b, n = base + sx.int("a", 0, top), base + sx.int("b", 0, top), sx.int("n", *dims)
    out = _run(sx, n, sx.num(a) + "-" + sx.num(b))
    good = sx.eq(b - a + 1, n)
    sx.check(sx.eq(good, out.ok), "accepted exactly when the range has dim entries")
    sx.check(out.ok or out.isa("ProcessException"), "rejection is a processing error")
    if out.ok:
        ns = _names(out)
        sx.check(sx.eq(len(ns), n), "one element per number")
        for i in range(len(ns)):
            sx.check(sx.eq(ns[i], "R" + sx.num(a + i)), "names count up from the first number")
    sx.reach()


def bounds(sx):
    """'X-Y' of any letters and signs: only capital letters make a range"""
    a, b = sx.text("a", 1, 1, "AYZ[_az"), sx.text("b", 1, 1, "ABZ[^_ab")
    n = sx.int("n", 1, 36)
    out = _run(sx, n, a + "-" + b)
    w = ord(b) - ord(a) + 1
    good = sx.And(ord(a) <= 90, ord(b) <= 90, w > 1, sx.eq(w, n))
    sx.check(sx.eq(good, out.ok), "accepted exactly for ascending capital letters")
    sx.check(out.ok or out.isa("ProcessException"), "rejection is a processing error")
    sx.reach()


def letters(sx, wide=None):
    """'X-Y': consecutive capital letters"""
    abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if wide else "ABCDYZ"
    a, b = sx.text("a", 1, 1, abc), sx.text("b", 1, 1, abc)
    n = sx.int("n", 1, 4) if not wide else sx.int("n", *wide)
    out = _run(sx, n, a + "-" + b)
    w = ord(b) - ord(a) + 1
    good = sx.And(w > 1, sx.eq(w, n))
    sx.check(sx.eq(good, out.ok), "accepted exactly when the letters ascend and count equals dim")
    sx.check(out.ok or out.isa("ProcessException"), "rejection is a processing error")
    if out.ok:
        ns = _names(out)
        sx.check(sx.eq(len(ns), n), "one element per letter")
        for i in range(len(ns)):
            sx.check(sx.eq(ns[i], "R" + chr(ord(a) + i)), "names follow the alphabet")
    sx.reach()


def listing(sx, k, ws):
    """comma separated list of identifiers with optional blanks after the comma"""
    toks = [sx.text("t" + str(i), 1, 2, TOK) for i in range(k)] if k <= 4 else [
        ("%d" % (k - i) if i % 2 else "n" + chr(65 + i)) + sx.text("t" + str(i), 1, 1, TOK) for i in range(k)]
    n = sx.int("n", 1, 4) if k <= 4 else sx.int("n", k - 1, k + 1)
    for i in range(k):
        for j in range(i):
            if k <= 4:
                sx.assume(sx.Not(sx.eq(toks[i], toks[j])))
    text = toks[0]
    for t in toks[1:]:
        text = text + "," + ws + t
    out = _run(sx, n, text)
    sx.check(sx.eq(sx.eq(n, k), out.ok), "accepted exactly when dim entries are listed")
    sx.check(out.ok or out.isa("ProcessException"), "rejection is a processing error")
    if out.ok:
        ns = _names(out)
        sx.check(sx.eq(len(ns), k), "one element per entry")
        for i in range(len(ns)):
            sx.check(sx.eq(ns[i], "R" + toks[i]), "names use the entries in order")
    sx.reach()


WORD = "AB01c9"
LIST = {0: [(WORD, 1)], 1: [(WORD, 1), (",", 2)], 2: [(" ", 2), (WORD, 3)], 3: [(WORD, 3), (",", 4)], 4: [(" ", 4), (WORD, 5)], 5: [(WORD, 5)]}
SPAN = {0: [("019", 1)], 1: [("019", 1), ("-", 2)], 2: [("019", 3)], 3: [("019", 3)]}


def _number(sx, cs):
    v = 0
    for c in cs:
        v = v * 10 + (ord(c) - 48)
    return v


def anytext(sx, length, n):
    """every text: taken exactly in one of the documented forms, with as many distinct entries as dim"""
    s = sx.text("s", length, length, "-,AB 01c9")
    out = _run(sx, n, s)
    good = sx.And(matches(sx, s, LIST, 0, [{1: 1, 2: 3, 3: 5}[n]]))
    for i in range(1, length - 1):
        span = sx.And(s[i] == "-", *[sx.isin(s[j], list("019")) for j in range(length) if j != i])
        good = sx.Or(good, sx.And(span, sx.eq(_number(sx, s[i + 1:]) - _number(sx, s[:i]), n - 1)))
    if length == 3:
        good = sx.Or(good, sx.And(sx.isin(s[0], ["A", "B"]), s[1] == "-", sx.isin(s[2], ["A", "B"]), n > 1, sx.eq(ord(s[2]) - ord(s[0]), n - 1)))
    if out.ok:
        sx.check(good, "only the documented forms are taken")
        ns = _names(out)
        sx.check(sx.eq(len(ns), n), "an accepted dimIndex yields dim elements")
        for i in range(1, len(ns)):
            for j in range(i):
                sx.check(sx.Not(sx.eq(ns[i], ns[j])), "accepted names are distinct")
    else:
        sx.check(out.isa("ProcessException"), "any other dimIndex is refused with a processing error")
        # entries that are listed twice lead to equal names
        twice = False
        for i in range(1, length - 1):
            a, b = s[:i], s[i + 1:].strip()
            twice = sx.Or(twice, sx.And(s[i] == ",", sx.eq(a, b)))
        if n == 3:
            twice = True
        sx.check(sx.Or(sx.Not(good), twice), "a documented form is taken")
    sx.reach()
