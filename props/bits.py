"""Bit positions of fields: notations, malformed positions, conflicts."""
from props.common import *

DIG = "0123456789"
RANGE = {0: [("[", 1)], 1: [(DIG, 2)], 2: [(DIG, 2), (":", 3)], 3: [(DIG, 4)], 4: [(DIG, 4), ("]", 5)]}


def _one(sx, f, **k):
    out = process(sx, dev([per("P", 0, [reg("R", 0, [f], **k)])]))
    sx.observe("outcome", out.kind)
    return out


def notations(sx, bits):
    """every subset of the position elements; each value arbitrary"""
    ow = sx.pick("ow", ["none", "offset", "width", "both"])
    lm = sx.pick("lm", ["none", "lsb", "msb", "both"])
    br = sx.pick("br", [False, True])
    off, w = sx.int("off", 0, bits), sx.int("w", 1, bits)
    lsb, msb = sx.int("lsb", 0, bits), sx.int("msb", 0, bits)
    x, y = sx.int("x", 0, bits), sx.int("y", 0, bits)
    f = SVDField(name="F")
    want = None
    if ow in ("offset", "both"):
        f.bit_offset = off
    if ow in ("width", "both"):
        f.bit_width = w
    if lm in ("lsb", "both"):
        f.lsb = lsb
    if lm in ("msb", "both"):
        f.msb = msb
    if br:
        f.bit_range = "[" + sx.num(y) + ":" + sx.num(x) + "]"
    if br:
        want = [sx.min([x, y]), sx.max([x, y])]
    elif lm == "both":
        sx.assume(lsb <= msb)
        want = [lsb, msb]
    elif ow == "both":
        want = [off, off + w - 1]
    out = _one(sx, f)
    if want is None:
        rejected(sx, out, "a field without a complete position is refused")
        sx.reach()
        return
    pd = expect_ok(sx, out)
    if pd is None:
        return
    got = pd.peripherals[0].registers[0].fields[0]
    sx.observe("bits", [got.lsb, got.msb])
    sx.check(sx.eq([got.lsb, got.msb], want), "the field lies at exactly the stated bits")
    sx.check(sx.eq([got.bit_offset, got.bit_width], [want[0], want[1] - want[0] + 1]), "offset and width denote the same bits")
    sx.check(sx.eq(list(got.bit_range), [want[1], want[0]]), "the bit range denotes the same bits")
    if br:
        sx.check(sx.Implies(y < x, warned(sx, out, "witching")), "a swapped range text is reported")
        sx.check(sx.Implies(y >= x, sx.Not(warned(sx, out, "witching"))), "a proper range text is not reported")
    sx.reach()


def rangetext(sx, n):
    """every text of n characters as the only position: taken exactly if it is [number:number]"""
    s = sx.text("s", n, n, "[]:0129 -x+")
    good = matches(sx, s, RANGE, 0, [5])
    out = _one(sx, SVDField(name="F", bit_range=s), size=128)
    sx.check(sx.eq(good, out.ok), "a range text is accepted exactly if it is well-formed")
    sx.check(out.ok or out.isa("ProcessException"), "a malformed range text is refused with a processing error")
    if out.ok:
        for k in range(2, n - 2):
            if sx.eq(s[k], ":"):
                a, b = sx.parse(s[1:k], 10), sx.parse(s[k + 1:n - 1], 10)
                got = out.value.peripherals[0].registers[0].fields[0]
                sx.check(sx.eq([got.lsb, got.msb], [sx.min([a, b]), sx.max([a, b])]), "the numbers of the range text are the bits")
    sx.reach()


def repeated(sx, n):
    """the bits of a repeated field, whatever the notation"""
    style = sx.pick("style", ["ow", "lm", "br"])
    lsb, w, inc = sx.int("lsb", 0, 15), sx.int("w", 1, 8), sx.int("inc", 8, 15)
    f = SVDField(name="F%s", dim=n, dim_increment=inc)
    if style == "ow":
        f.bit_offset, f.bit_width = lsb, w
    elif style == "lm":
        f.lsb, f.msb = lsb, lsb + w - 1
    else:
        f.bit_range = "[" + sx.num(lsb + w - 1) + ":" + sx.num(lsb) + "]"
    pd = expect_ok(sx, _one(sx, f, size=128))
    if pd is None:
        return
    got = pd.peripherals[0].registers[0].fields
    sx.check(sx.eq(len(got), n), "as many fields as stated")
    for i in range(len(got)):
        sx.check(sx.eq([got[i].name, got[i].lsb, got[i].msb], ["F" + str(i), lsb + i * inc, lsb + i * inc + w - 1]),
                 "each field lies at its own bits")
    sx.reach()


KINDS = {"r": [AccessType.READ_ONLY], "w": [AccessType.WRITE_ONLY],
         "b": [a for a in ACC if a not in (AccessType.READ_ONLY, AccessType.WRITE_ONLY)]}


def _clash(sx, a, b):
    """(lsb, msb, access) of two fields conflict"""
    share = sx.And(a[0] <= b[1], b[0] <= a[1])
    both_read = sx.And(sx.Not(sx.eq(a[2], AccessType.WRITE_ONLY)), sx.Not(sx.eq(b[2], AccessType.WRITE_ONLY)))
    both_write = sx.And(sx.Not(sx.eq(a[2], AccessType.READ_ONLY)), sx.Not(sx.eq(b[2], AccessType.READ_ONLY)))
    return sx.And(share, sx.Or(both_read, both_write))


def _judge(sx, out, want, size):
    clash = sx.Or(*[_clash(sx, want[i][1], want[j][1]) for i in range(len(want)) for j in range(i)])
    sx.check(sx.eq(clash, sx.Not(out.ok)), "refused exactly if two fields share a bit in one direction")
    sx.check(out.ok or out.isa("ProcessException"), "a conflict is a processing error")
    if out.ok:
        got = out.value.peripherals[0].registers[0].fields
        sx.check(sx.eq(len(got), len(want)), "all fields are kept")
        for name, (l, m, a) in want:
            f = by_name(got, name)
            if f is None:
                sx.fail("all fields are kept")
                continue
            sx.check(sx.eq([f.lsb, f.msb, f.access], [l, m, a]), "fields keep bits and access")
            sx.check(sx.eq(m >= size, warned(sx, out, "'" + name + "'", "size")), "reported exactly if beyond the register's size")
    sx.reach()


def conflicts(sx, n, top, fixed=None):
    """n fields anywhere in (or beyond) the register with any access, stated or inherited"""
    size = sx.choice("size", [8, 16, 32, 64])
    racc = sx.choice("racc", ACC)
    lsb = [sx.int("l%d" % i, 0, top) for i in range(n)]
    w = [sx.int("w%d" % i, 1, top) for i in range(n)]
    if fixed is None:
        acc = [sx.opt("a%d" % i, sx.choice("a%d" % i, ACC)) for i in range(n)]
    else:
        acc = [sx.choice("a%d" % i, KINDS[fixed[i]]) for i in range(n)]
    want = [("F%d" % i, (lsb[i], lsb[i] + w[i] - 1, near(sx, acc[i], racc))) for i in range(n)]
    fs = [fld(want[i][0], lsb[i], w[i], access=acc[i]) for i in range(n)]
    out = process(sx, dev([per("P", 0, [reg("R", 0, fs, size=size, access=racc)])]))
    sx.observe("outcome", out.kind)
    _judge(sx, out, want, size)


def expanded(sx, n):
    """a list of fields against a single one and itself"""
    lsb, w, inc = sx.int("l", 0, 31), sx.int("w", 1, 8), sx.int("inc", 1, 8)
    x, v = sx.int("x", 0, 31), sx.int("v", 1, 8)
    a, b = sx.choice("a", ACC), sx.choice("b", ACC)
    order = sx.pick("order", [0, 1])
    fs = [fld("F%s", lsb, w, dim=n, dim_increment=inc, access=a), fld("X", x, v, access=b)]
    if order:
        fs.reverse()
    out = process(sx, dev([per("P", 0, [reg("R", 0, fs)])]))
    sx.observe("outcome", out.kind)
    want = [("F%d" % i, (lsb + i * inc, lsb + i * inc + w - 1, a)) for i in range(n)] + [("X", (x, x + v - 1, b))]
    _judge(sx, out, want, 32)


def inherited(sx):
    """fields of a derived register against the fields of its base; fields of different registers never conflict"""
    la, wa, lb, wb = sx.int("la", 0, 31), sx.int("wa", 1, 8), sx.int("lb", 0, 31), sx.int("wb", 1, 8)
    a, b = sx.opt("a", sx.choice("a", ACC)), sx.opt("b", sx.choice("b", ACC))
    ra, rb = sx.choice("ra", ACC), sx.opt("rb", sx.choice("rb", ACC))
    d = dev([per("P", 0, [reg("A", 0, [fld("FA", la, wa, access=a)], access=ra),
                          reg("B", 4, [fld("FB", lb, wb, access=b)], access=rb, derived_from="A")])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    eff = near(sx, rb, ra)
    clash = _clash(sx, (la, la + wa - 1, near(sx, a, eff)), (lb, lb + wb - 1, near(sx, b, eff)))
    sx.check(sx.eq(clash, sx.Not(out.ok)), "refused exactly if two fields share a bit in one direction")
    sx.check(out.ok or out.isa("ProcessException"), "a conflict is a processing error")
    sx.reach()


def crowd(sx, n, size):
    """n fields side by side and one anywhere among them with any access"""
    at = sx.pick("at", [0, n // 2, n])
    racc = sx.opt("racc", sx.choice("racc", ACC))
    step = size // n
    w = max(1, step - 1)
    kinds = [AccessType.READ_ONLY, AccessType.WRITE_ONLY, AccessType.READ_WRITE, None, AccessType.WRITE_ONCE]
    want, fs = [], []
    for i in range(n):
        j = (i * 7 + 3) % n
        a = kinds[i % 5]
        want.append(("F%d" % i, (step * j, step * j + w - 1, near(sx, a, racc, AccessType.READ_WRITE))))
        fs.append(fld("F%d" % i, step * j, w, access=a))
    l, v, a = sx.int("l", 0, size + 8), sx.int("w", 1, size), sx.opt("a", sx.choice("a", ACC))
    want.insert(at, ("N", (l, l + v - 1, near(sx, a, racc, AccessType.READ_WRITE))))
    fs.insert(at, fld("N", l, v, access=a))
    out = process(sx, dev([per("P", 0, [reg("R", 0, fs, size=size, access=racc)])]))
    sx.observe("outcome", out.kind)
    _judge(sx, out, want, size)
