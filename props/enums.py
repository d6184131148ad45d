"""Enumerated values: literals, patterns, defaults, uniqueness, usages."""
from props.common import *

HEX = "0123456789abcdefABCDEF"
LIT = {
    "s": [("+", "p"), ("0", "z"), ("123456789", "d"), ("#", "b0")],
    "p": [("0", "z"), ("123456789", "d"), ("#", "b0")],
    "z": [("0123456789", "d"), ("xX", "h0"), ("bB", "b0")],
    "d": [("0123456789", "d")],
    "h0": [(HEX, "h")], "h": [(HEX, "h")],
    "b0": [("01xX", "b")], "b": [("01xX", "b")],
}


def _device(values, width=16, at=0, **k):
    return dev([per("P", 0, [reg("R", 0, [fld("F", at, width, [evc(values, **k)])], size=64)])])


def _values(out):
    return out.value.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values


def literal(sx, form, n):
    """a literal of each notation denotes its number"""
    alpha = {"dec": "0123456789", "0x": HEX, "0X": HEX, "#": "01", "0b": "01"}[form]
    base = {"dec": 10, "0x": 16, "0X": 16, "#": 2, "0b": 2}[form]
    plus = sx.pick("plus", ["", "+"])
    t = sx.text("t", n, n, alpha) if n < 9 or base != 16 else sx.text("h", n - 3, n - 3, "0123456789") + sx.text("t", 3, 3, alpha)
    d = sx.opt("d", sx.text("d", 2, 2, "ab"))
    out = process(sx, _device([ev("N", plus + ("" if form == "dec" else form) + t, description=d)], 4 * n, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    v = sx.parse(t, base)
    got = _values(out)
    sx.check(sx.eq(len(got), 1), "one literal is one value")
    sx.observe("value", got[0].value)
    sx.check(sx.eq([got[0].name, got[0].description, got[0].value], ["N", d, v]), "a literal denotes its number")
    sx.reach()


def pattern(sx, n, prefix):
    """a binary literal with don't-care positions denotes every matching number, each as a value of its own"""
    cs = [sx.pick("c%d" % i, ["0", "1", "x", "X"]) for i in range(n)]
    d = sx.text("d", 2, 2, "ab")
    other = sx.int("other", 0, 2 ** n - 1)
    want = []
    for v in range(2 ** n):
        bits = [(v >> (n - 1 - i)) & 1 for i in range(n)]
        if all(c in "xX" or int(c) == b for c, b in zip(cs, bits)):
            want.append(v)
    wild = any(c in "xX" for c in cs)
    clash = sx.isin(other, want)
    out = process(sx, _device([ev("N", prefix + "".join(cs), description=d), ev("O", sx.num(other))], n, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    sx.check(sx.eq(len(got), len(want) + sx.ite(clash, 0, 1)), "as many values as matching numbers")
    for v in want:
        m = [x for x in got if sx.eq(x.value, v)]
        sx.check(len(m) == 1, "each matching number is there once")
        if m:
            sx.check(sx.eq(m[0].name, "N_%d" % v if wild else "N"), "each value is named after its number")
            sx.check(sx.eq(m[0].description, d), "each value carries the description")
    sx.reach()


def longpattern(sx, n, k, layout):
    """patterns of n positions, k of them open"""
    if layout == "low":
        open_ = list(range(k))
    elif layout == "high":
        open_ = list(range(n - k, n))
    else:
        open_ = [i * n // k for i in range(k)]
    ones = sx.pick("ones", [False, True])
    text = "".join("x" if i in open_ else "1" if ones and i % 2 else "0" for i in reversed(range(n)))
    d = sx.text("d", 2, 2, "ab")
    out = process(sx, _device([ev("N", "#" + text, description=d)], n, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    want = sorted(sum(1 << i for j, i in enumerate(open_) if m >> j & 1) + (sum(1 << i for i in range(1, n, 2) if i not in open_) if ones else 0)
                  for m in range(2 ** k))
    sx.check(sx.eq([x.value for x in got], want), "every matching number, once and sorted")
    sx.check(sx.eq([x.name for x in got], ["N_%d" % v for v in want]), "each value is named after its number")
    sx.check(sx.And(*[sx.eq(x.description, d) for x in got]), "each value carries the description")
    sx.reach()


def littext(sx, n, default=False):
    """every text of n characters: accepted exactly if it is a literal"""
    s = sx.text("s", n, n, "019afgxXbB#+-_ ")
    good = matches(sx, s, LIT, "s", ["z", "d", "h", "b"])
    # an upper case 0B is no notation of the format; reading it like 0b is fine as well
    out = process(sx, _device([ev("N", s)], 4 * n))
    sx.observe("outcome", out.kind)
    upper = sx.Or(*[sx.eq(s[i], "B") for i in range(n)])
    sx.check(sx.Implies(sx.Not(upper), sx.eq(good, out.ok)), "a text is accepted exactly if it is a literal")
    sx.check(sx.Implies(out.ok, good), "a malformed text is refused")
    sx.check(out.ok or out.isa("ProcessException"), "a malformed text is refused with a processing error")
    sx.reach()


def missing(sx):
    """a value without number (and no default) is refused"""
    how = sx.pick("how", [None, ""])
    v = sx.int("v", 0, 3)
    at = sx.pick("at", [0, 1])
    vs = [ev("A", sx.num(v))]
    vs.insert(at, ev("B", how, is_default=sx.opt("d", False)))
    rejected(sx, process(sx, _device(vs, 2)), "a value without number is refused")
    sx.reach()


def default(sx, w, k, at, own):
    """k stated values and a default on a field of w bits"""
    vs = [sx.int("v%d" % i, 0, 2 ** w - 1) for i in range(k)]
    ds = [sx.opt("d%d" % i, sx.text("d%d" % i, 1, 1, "ab")) for i in range(k)]
    dd = sx.opt("dd", sx.text("dd", 1, 1, "ab"))
    for i in range(k):
        for j in range(i):
            sx.assume(sx.Not(sx.eq(vs[i], vs[j])))
    es = [ev("V%d" % i, sx.num(vs[i]), description=ds[i]) for i in range(k)]
    dv = sx.int("dv", 0, 2 ** w - 1) if own else None
    es.insert(at, ev("D", sx.num(dv) if own else None, is_default=True, description=dd))
    d = dev([per("P", 0, [reg("R", 0, [fld("F", sx.int("lsb", 0, 8), w, [evc(es, usage=sx.choice("u", list(EnumUsageType)))])])])])
    out = process(sx, d)
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    sx.check(sx.eq(len(got), 2 ** w), "every value of the field is there once")
    for i in range(len(got)):
        sx.check(sx.eq(got[i].value, i), "every value of the field is there once, in order")
        stated = sx.Or(*[sx.eq(v, i) for v in vs])
        for j in range(k):
            sx.check(sx.Implies(sx.eq(vs[j], i), sx.eq([got[i].name, got[i].description], ["V%d" % j, ds[j]])),
                     "stated values keep name and description")
        sx.check(sx.Implies(sx.Not(stated), sx.And(sx.eq(got[i].name, "D_%d" % i), sx.eq(got[i].description, dd))),
                 "remaining values carry the default's name and description")
    if own:
        sx.check(warned(sx, out, "'D'"), "a number stated with the default is ignored with a report")
    sx.reach()


def default_beyond(sx, w, k):
    """k stated values that may be equal to each other, beyond the field, or named like a remaining value; the default anywhere"""
    vs = [sx.int("v%d" % i, 0, 2 ** w + 1) for i in range(k)]
    # a name that is made for a value of the default is taken for no other
    nm = ["V0"] + ["V%d" % i for i in range(1, k)]
    alike = sx.pick("alike", [None, "D_x", "D_", "D_0", "D_%d" % (2 ** w - 1), "D_%d" % 2 ** w])
    es = [ev(alike if i == 0 and alike else nm[i], sx.num(vs[i]), description="d%d" % i) for i in range(k)]
    at = sx.pick("at", list(range(k + 1)))
    es.insert(at, ev("D", None, is_default=True, description="dd"))
    out = process(sx, _device(es, w, sx.int("lsb", 0, 8)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    sx.check(sx.eq([x.value for x in got], list(range(2 ** w))), "every value of the field is there once, in order")
    for x in got:
        stated, rest = False, True
        for j in range(k):
            mine = sx.And(rest, sx.eq(vs[j], x.value))
            sx.check(sx.Implies(mine, sx.eq([x.name, x.description], [alike if j == 0 and alike else nm[j], "d%d" % j])),
                     "stated values keep name and description, the first of equal ones counts")
            rest = sx.And(rest, sx.Not(sx.eq(vs[j], x.value)))
        sx.check(sx.Implies(rest, sx.And(x.name.startswith("D"), sx.eq(x.description, "dd"))),
                 "remaining values carry the default's name and description")
    sx.reach()


def wildcard_default(sx, w):
    """patterns and a default together"""
    cs = [sx.pick("c%d" % i, ["0", "1", "x"]) for i in range(w)]
    v = sx.int("v", 0, 2 ** w - 1)
    out = process(sx, _device([ev("D", None, is_default=True), ev("N", "#" + "".join(cs)), ev("O", sx.num(v))], w, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    wild = "x" in cs
    sx.check(sx.eq(len(got), 2 ** w), "every value of the field is there once")
    for i in range(len(got)):
        bits = [(i >> (w - 1 - j)) & 1 for j in range(w)]
        hit = all(c == "x" or int(c) == b for c, b in zip(cs, bits))
        sx.check(sx.eq(got[i].value, i), "every value of the field is there once, in order")
        want = ("N_%d" % i if wild else "N") if hit else sx.ite(sx.eq(v, i), "O", "D_%d" % i)
        sx.check(sx.eq(got[i].name, want), "stated values keep their name, the others carry the default's")
    sx.reach()


def defaults(sx, n):
    """several defaults: refused if more than one"""
    flags = [sx.pick("f%d" % i, [None, False, True]) for i in range(n)]
    vals = [sx.pick("n%d" % i, [False, True]) for i in range(n)]
    es = []
    for i in range(n):
        if not flags[i]:
            vals[i] = True
        es.append(ev("V%d" % i, sx.num(sx.int("v%d" % i, i, i)) if vals[i] else None, is_default=flags[i]))
    out = process(sx, _device(es, 3, sx.int("lsb", 0, 32)))
    sx.observe("outcome", out.kind)
    m = len([f for f in flags if f])
    if m > 1:
        rejected(sx, out, "more than one default is refused")
    else:
        sx.check(out.ok, "at most one default is accepted")
        if out.ok:
            sx.check(sx.eq(len(_values(out)), 8 if m else n), "covers everything exactly if there is a default")
    sx.reach()


def unique(sx, n, w, alpha, dflt):
    """n values with arbitrary (also equal, reserved, too large) names and numbers"""
    nm = []
    for i in range(n):
        nm.append(sx.ite(sx.bool("res%d" % i), sx.choice("r%d" % i, ["reserved", "Reserved", "RESERVED"]), sx.text("n%d" % i, 1, 1, alpha)))
    if w > 8:
        some = sorted({0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** (w - 1), 2 ** w - 1, 2 ** w, 2 ** w + 7})
        vs = [sx.pick("v%d" % i, some) for i in range(n)]
    else:
        vs = [sx.int("v%d" % i, 0, 2 ** w + 1) for i in range(n)]
    ds = ["d%d" % i for i in range(n)]
    es = [ev(nm[i], sx.num(vs[i]), description=ds[i]) for i in range(n)]
    if dflt:
        es.insert(sx.pick("rest", sorted({0, n // 2, n})), ev("rest", None, is_default=True, description="rest"))
    out = process(sx, _device(es, w, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    for i in range(len(got)):
        sx.check(sx.And(0 <= got[i].value, got[i].value < 2 ** w), "values fit the field")
        sx.check(sx.Not(sx.eq(got[i].name.lower(), "reserved")), "no value is named reserved")
        for j in range(i):
            sx.check(sx.Not(sx.eq(got[i].name, got[j].name)), "names are distinct")
            sx.check(got[j].value < got[i].value, "values are distinct and sorted")
    reserved = [sx.eq(nm[i].lower(), "reserved") for i in range(n)]
    dropped = 0
    for i in range(n):
        kept = sx.Or(*[sx.eq(g.description, ds[i]) for g in got])
        sx.check(sx.Implies(kept, sx.Or(*[sx.And(sx.eq([g.name, g.value, g.description], [nm[i], vs[i], ds[i]])) for g in got])),
                 "a kept value keeps name and number")
        fresh = sx.And(*[sx.Or(reserved[j], sx.And(sx.Not(sx.eq(nm[i], nm[j])), sx.Not(sx.eq(vs[i], vs[j])))) for j in range(i)])
        sx.check(sx.Implies(sx.And(sx.Not(reserved[i]), vs[i] < 2 ** w, fresh), kept), "the first of equal values is kept")
        dropped = dropped + sx.ite(kept, 0, 1)
    reports = 0
    for x in out.warns:
        reports = reports + sx.ite(x[2], 1, 0)
    sx.check(reports >= dropped, "every dropped value is reported")
    sx.reach()


def generated(sx, w, how):
    """a stated name that looks like one made for a value of a pattern or of the default"""
    k, v = sx.int("k", 0, 2 ** w - 1), sx.int("v", 0, 2 ** w - 1)
    other = ev("X", None, is_default=True) if how == "default" else ev("X", "#" + "x" * w)
    es = [ev("X_" + sx.num(k), sx.num(v)), other]
    if sx.pick("last", [False, True]):
        es.reverse()
    out = process(sx, _device(es, w, sx.int("lsb", 0, 32)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    for i in range(len(got)):
        for j in range(i):
            sx.check(got[j].value < got[i].value, "values are distinct and sorted")
            sx.check(sx.Not(sx.eq(got[i].name, got[j].name)), "stated and generated names are distinct")
    if how == "default":
        sx.check(sx.eq(len(got), 2 ** w), "every value of the field is there once")
    sx.reach()


def usages(sx, n, how):
    """n enumerations with any usage, own or derived from an enumeration elsewhere or on the same field"""
    us = [sx.opt("u%d" % i, sx.choice("u%d" % i, list(EnumUsageType))) for i in range(n)]
    kinds = [sx.pick("k%d" % i, [False, True]) for i in range(n)] if how != "own" else [False] * n
    bu = sx.opt("bu", sx.choice("bu", list(EnumUsageType)))
    cs, eff = [], []
    for i in range(n):
        if kinds[i]:
            cs.append(SVDEnumeratedValueContainer(enumerated_values=[], derived_from="P.B.G.EB"))
            eff.append(near(sx, bu, EnumUsageType.READ_WRITE))
        else:
            cs.append(evc([ev("V%d" % i, str(i))], name="E%d" % i, usage=us[i]))
            eff.append(near(sx, us[i], EnumUsageType.READ_WRITE))
    rs = [reg("B", 0, [fld("G", 0, 4, [evc([ev("W", "9")], name="EB", usage=bu)])]), reg("R", 4, [fld("F", 0, 4, cs)])]
    if how == "last":
        rs.reverse()
    if how == "field":
        rs[1].fields[0].enumerated_value_containers = cs
        rs.append(reg("S", 8, [fld("H", 0, 4, derived_from="P.R.F")]))
    out = process(sx, dev([per("P", 0, rs)]))
    sx.observe("outcome", out.kind)
    rw = [EnumUsageType.READ, EnumUsageType.WRITE]
    if n < 2:
        good = True
    elif n > 2:
        good = False
    else:
        good = sx.And(sx.isin(eff[0], rw), sx.isin(eff[1], rw), sx.Not(sx.eq(eff[0], eff[1])))
    sx.check(sx.eq(good, out.ok), "accepted exactly with consistent usages")
    sx.check(out.ok or out.isa("ProcessException"), "inconsistent usages are a processing error")
    if out.ok:
        for nm in (["R"] if how != "field" else ["R", "S"]):
            got = by_name(out.value.peripherals[0].registers, nm).fields[0].enumerated_value_containers
            sx.check(sx.eq(len(got), n), "all enumerations are kept")
            for i in range(n):
                vn = "W" if kinds[i] else "V%d" % i
                sx.check(sx.Or(*[sx.And(sx.eq(c.usage, eff[i]), sx.eq(names(c.enumerated_values), [vn])) for c in got]),
                         "each enumeration keeps its values and applies to its usage, by default read-write")
    sx.reach()


def crowd_default(sx, w, k, at):
    """k stated values, one of them anywhere, and a default on a field of w bits"""
    n = 2 ** w
    fixed = sorted(((i * 7 + 3) % n for i in range(k)), key=lambda x: (x * 5) % n)
    v = sx.int("v", 0, n - 1)
    for x in fixed:
        sx.assume(sx.Not(sx.eq(v, x)))
    es = [ev("V%d" % x, "0x%x" % x, description="d%d" % x) for x in fixed]
    es.insert(at, ev("N", sx.num(v), description="dn"))
    es.insert(sx.pick("dat", [0, k // 2, k + 1]), ev("D", None, is_default=True, description="dd"))
    out = process(sx, _device(es, w, sx.int("lsb", 0, 8)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    sx.check(sx.eq(len(got), n), "every value of the field is there once")
    for i in range(len(got)):
        sx.check(sx.eq(got[i].value, i), "every value of the field is there once, in order")
        if i in fixed:
            sx.check(sx.eq([got[i].name, got[i].description], ["V%d" % i, "d%d" % i]), "stated values keep name and description")
        else:
            sx.check(sx.eq([got[i].name, got[i].description], sx.ite(sx.eq(v, i), ["N", "dn"], ["D_%d" % i, "dd"])
                           if not sx.symbolic else [sx.ite(sx.eq(v, i), "N", "D_%d" % i), sx.ite(sx.eq(v, i), "dn", "dd")]),
                     "remaining values carry the default's name and description")
    sx.reach()


def crowd_unique(sx, k, w, at):
    """k values with distinct names and numbers and one with any name and number"""
    n = 2 ** w
    fixed = [(i * 7 + 3) % n for i in range(k)]
    nm = sx.choice("n", ["V%d" % x for x in fixed] + ["N", "reserved", "v%d" % fixed[0]])
    v = sx.int("v", 0, n + 3)
    es = [ev("V%d" % x, str(x), description="V%d" % x) for x in fixed]
    es.insert(at, ev(nm, sx.num(v), description="new"))
    out = process(sx, _device(es, w, sx.int("lsb", 0, 8)))
    if expect_ok(sx, out) is None:
        return
    got = _values(out)
    for i in range(1, len(got)):
        sx.check(got[i - 1].value < got[i].value, "values are distinct and sorted")
    for i in range(len(got)):
        sx.check(sx.And(0 <= got[i].value, got[i].value < n), "values fit the field")
        for j in range(i):
            sx.check(sx.Not(sx.eq(got[i].name, got[j].name)), "names are distinct")
    usable = sx.And(sx.Not(sx.eq(nm, "reserved")), v < n)
    clash = sx.Or(*[sx.And(usable, sx.Or(sx.eq(nm, "V%d" % x), sx.eq(v, x))) for x in fixed[:at]])
    keep = sx.And(usable, sx.Not(clash))
    kept = sx.Or(*[sx.And(sx.eq(g.description, "new"), sx.eq([g.name, g.value], [nm, v])) for g in got])
    sx.check(sx.eq(keep, kept), "the first of equal values is kept, the others are left out")
    for i in range(k):
        x = fixed[i]
        there = sx.Or(*[sx.And(sx.eq([g.name, g.value, g.description], ["V%d" % x, x, "V%d" % x])) for g in got])
        met = sx.And(i >= at, sx.Or(sx.eq(nm, "V%d" % x), sx.eq(v, x)))
        sx.check(sx.Implies(sx.And(keep, met), sx.Not(there)), "the first of equal values is kept, the others are left out")
        sx.check(sx.Implies(sx.Not(met), there), "a value is kept unless an earlier one has its name or number")
    reports = 0
    for x in out.warns:
        reports = reports + sx.ite(x[2], 1, 0)
    sx.check(reports >= k + 1 - len(got), "every dropped value is reported")
    sx.observe("values", [g.value for g in got])
    sx.reach()


def inherited_usages(sx, n, m, chain):
    """a derived field with enumerations of its own has them besides those of its base; their usages together must be consistent"""
    mk = lambda tag, k: [sx.opt(tag + "u%d" % i, sx.choice(tag + "u%d" % i, list(EnumUsageType))) for i in range(k)]
    bu, ou = mk("b", n), mk("o", m)
    cont = lambda tag, us: [evc([ev("V", str(i))], name=tag + "%d" % i, usage=us[i]) for i in range(len(us))]
    rs = [fld("F", 0, 4, cont("B", bu)), fld("M", 8, 4, derived_from="F"), fld("D", 16, 4, cont("O", ou), derived_from="M" if chain else "F")]
    if not chain:
        rs.pop(1)
    if sx.pick("last", [False, True]):
        rs.reverse()
    out = process(sx, dev([per("P", 0, [reg("R", 0, rs)])]))
    sx.observe("outcome", out.kind)
    rw = [EnumUsageType.READ, EnumUsageType.WRITE]

    def consistent(us):
        e = [near(sx, u, EnumUsageType.READ_WRITE) for u in us]
        if len(e) < 2:
            return True
        return False if len(e) > 2 else sx.And(sx.isin(e[0], rw), sx.isin(e[1], rw), sx.Not(sx.eq(e[0], e[1])))

    sx.check(sx.eq(sx.And(consistent(bu), consistent(bu + ou)), out.ok), "accepted exactly with consistent usages")
    sx.check(out.ok or out.isa("ProcessException"), "inconsistent usages are a processing error")
    if out.ok:
        got = by_name(out.value.peripherals[0].registers[0].fields, "D").enumerated_value_containers
        sx.check(sx.eq(sorted(names(got)), sorted(["B%d" % i for i in range(n)] + ["O%d" % i for i in range(m)])), "all enumerations are kept")
        for c in got:
            u = (bu if c.name[0] == "B" else ou)[int(c.name[1])]
            sx.check(sx.eq(c.usage, near(sx, u, EnumUsageType.READ_WRITE)), "each enumeration applies to its usage, by default read-write")
    sx.reach()
