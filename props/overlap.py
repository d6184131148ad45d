"""Reports: overlaps of siblings and address blocks, ignored and misaligned elements."""
from props.common import *

TOP = 2**64 - 1
NM = ["A", "B", "C", "D"]


def _reported(sx, out, a, b, kind=""):
    return sx.Or(warned(sx, out, kind, "'" + a + "' overlaps with '" + b + "'"), warned(sx, out, kind, "'" + b + "' overlaps with '" + a + "'"))


def _linked(alts, n):
    """groups of elements connected through alternate declarations, directly or over others (present or not)"""
    comp = {NM[i]: i for i in range(n)}
    for i in range(n):
        if alts[i] is not None:
            comp.setdefault(alts[i], n + i)
    for _ in range(n + 1):
        for i in range(n):
            if alts[i] is not None:
                comp[NM[i]] = comp[alts[i]] = min(comp[NM[i]], comp[alts[i]])
    return [comp[NM[i]] for i in range(n)]


def _judge(sx, out, n, ranges, alts, kind="", loose=None):
    comp = _linked(loose or alts, n)
    for i in range(n):
        for j in range(i):
            share = sx.And(ranges[i][0] <= ranges[j][1], ranges[j][0] <= ranges[i][1])
            r = _reported(sx, out, NM[i], NM[j], kind)
            sx.check(sx.Implies(sx.Not(share), sx.Not(r)), "no overlap is reported where no byte is shared")
            if alts[i] == NM[j] or alts[j] == NM[i]:
                sx.check(sx.Not(r), "declared alternates are not reported")
            elif comp[i] != comp[j]:
                sx.check(sx.Implies(share, r), "a shared byte is reported")


def _alts(sx, n, who):
    return [sx.pick("alt%d" % i, [None] + [NM[j] for j in range(n) if j != i] + (["ZZ"] if who == "unknown" else [])) for i in range(n)]


def peripherals(sx, n, alt, what):
    """n peripherals anywhere; alt: which alternates are considered; what: which of the two extents is arbitrary"""
    base = [sx.int("b%d" % i, 0, TOP) for i in range(n)]
    ro = [sx.int("ro%d" % i, 0, 0xFFF) if what == "effective" else 0 for i in range(n)]
    size = [sx.choice("s%d" % i, [8, 16, 32, 64]) if what == "effective" else 8 for i in range(n)]
    bo = [sx.int("bo%d" % i, 0, 0xFFF) if what == "specified" else 0 for i in range(n)]
    bs = [sx.int("bs%d" % i, 1, 0xFFF) if what == "specified" else 1 for i in range(n)]
    two = what == "specified" and sx.pick("two", [False, True])
    alts = alt if isinstance(alt, list) else _alts(sx, n, alt) if alt else [None] * n
    ps = []
    for i in range(n):
        blocks = [blk(bo[i], bs[i])]
        if two and i == 0:
            blocks.append(blk(sx.int("bo", 0, 0xFFF), sx.int("bs", 1, 0xFFF)))
        ps.append(per(NM[i], base[i], [reg("R", ro[i], size=size[i])], ab=blocks, alternate_peripheral=alts[i]))
    out = process(sx, dev(ps))
    if expect_ok(sx, out) is None:
        return
    sx.check(sx.eq(len(out.value.peripherals), n), "all peripherals are kept")
    eff = [(base[i], base[i] + ro[i] + near(sx, size[i]) // 8 - 1) for i in range(n)]
    spec = []
    for i in range(n):
        ends = [b.offset + b.size - 1 for b in ps[i].address_blocks]
        spec.append((base[i], base[i] + sx.max(ends)))
    _judge(sx, out, n, eff, alts, "ffective")
    _judge(sx, out, n, spec, alts, "pecified")
    sx.reach()


def children(sx, kinds, alt, depth):
    """registers and clusters of one container; kinds: r register, c cluster (with one register), d cluster of two"""
    n = len(kinds)
    off = [sx.int("o%d" % i, 0, 0xFFFF) for i in range(n)]
    size = [sx.choice("s%d" % i, [8, 16, 32, 64]) for i in range(n)]
    ro = [sx.int("ro%d" % i, 0, 0xFF) if kinds[i] != "r" else 0 for i in range(n)]
    alts = alt if isinstance(alt, list) else _alts(sx, n, alt) if alt else [None] * n
    kids, ranges, ok = [], [], list(alts)
    at = 0x10000
    for i in range(depth):
        at = at + sx.int("at%d" % i, 0, 0xFFFF)
    for i in range(n):
        end = off[i] + ro[i] + size[i] // 8 - 1
        if kinds[i] == "r":
            kids.append(reg(NM[i], off[i], size=size[i], alternate_register=alts[i]))
        else:
            inner = [reg("I", ro[i], size=size[i])]
            if kinds[i] == "d":
                o2 = sx.int("p%d" % i, 0, 0xFF)
                inner.append(reg("J", o2, size=8))
                end = sx.max([end, off[i] + o2])
            kids.append(clu(NM[i], off[i], inner, alternate_cluster=alts[i]))
        ranges.append((off[i], end))
        # an alternate is declared among elements of the same kind
        if alts[i] in NM[:n] and (kinds[NM.index(alts[i])] == "r") != (kinds[i] == "r"):
            ok[i] = None
    for i in range(depth):
        kids = [clu("L%d" % i, 0x100 + i, kids)]
    out = process(sx, dev([per("P", 0x1000, kids)]))
    if expect_ok(sx, out) is None:
        return
    _judge(sx, out, n, ranges, ok, loose=alts)
    sx.reach()


def crowd(sx, level, n):
    """n neighbours in a row, one arbitrary in place and extent among them"""
    o, ro = sx.int("o", 0, 0x10 * n + 8), sx.pick("ro", [0, 0x18, 0x10 * n])
    at = sx.pick("at", [0, n - 1])
    nm = ["N%d" % i for i in range(n)]
    off = [0x10 * (i if i < at else i - 1) for i in range(n)]
    off[at] = o
    end = [off[i] + 7 for i in range(n)]
    end[at] = o + ro + 3
    if level == "per":
        d = dev([per(nm[i], off[i], [reg("R", ro if i == at else 0, size=32 if i == at else 64)], ab=[blk(0, end[i] - off[i] + 1)]) for i in range(n)])
    else:
        d = dev([per("P", 0, [clu(nm[i], off[i], [reg("R", ro)]) if i == at else reg(nm[i], off[i], size=64) for i in range(n)])])
    out = process(sx, d)
    if expect_ok(sx, out) is None:
        return
    for i in range(n):
        for j in range(i):
            share = sx.And(off[i] <= end[j], off[j] <= end[i])
            for kind in ("ffective", "pecified") if level == "per" else ("",):
                sx.check(sx.eq(share, _reported(sx, out, nm[i], nm[j], kind)), "reported exactly where a byte is shared")
    sx.reach()


def groups(sx, n):
    """registers of an alternate group never collide with registers outside of it"""
    off = [sx.int("o%d" % i, 0, 0xFF) for i in range(n)]
    gs = [sx.pick("g%d" % i, [None, "G", "H"]) for i in range(n)]
    out = process(sx, dev([per("P", 0, [reg(NM[i], off[i], alternate_group=gs[i]) for i in range(n)])]))
    if expect_ok(sx, out) is None:
        return
    for i in range(n):
        for j in range(i):
            share = sx.And(off[i] <= off[j] + 3, off[j] <= off[i] + 3)
            r = _reported(sx, out, NM[i], NM[j])
            sx.check(sx.Implies(sx.Not(share), sx.Not(r)), "no overlap is reported where no byte is shared")
            if gs[i] != gs[j]:
                sx.check(sx.Not(r), "registers of different alternate groups are not reported")
            elif gs[i] is None:
                sx.check(sx.eq(share, r), "a shared byte is reported")
    sx.reach()


def apart(sx):
    """elements of different containers, and the elements of an array against a neighbour"""
    inc, o = sx.int("inc", 1, 0x40), sx.int("o", 0, 0x100)
    d = dev([per("P", 0, [clu("A%s", 0, [reg("R", 0)], dim=2, dim_increment=inc), clu("B", o, [reg("R", 0)])]),
             per("Q", 0x10000, [reg("A0", 0), reg("B", 8)])])
    out = process(sx, d)
    if expect_ok(sx, out) is None:
        return
    r = [(0, 3), (inc, inc + 3), (o, o + 3)]
    nm = ["A0", "A1", "B"]
    for i in range(3):
        for j in range(i):
            share = sx.And(r[i][0] <= r[j][1], r[j][0] <= r[i][1])
            sx.check(sx.eq(share, _reported(sx, out, nm[i], nm[j])), "reported exactly where a byte is shared")
    sx.reach()


def blocks(sx, n):
    """overlapping address blocks are reported, others are not"""
    o = [sx.int("o%d" % i, 0, TOP) for i in range(n)]
    s = [sx.int("s%d" % i, 1, 0xFFFF) for i in range(n)]
    out = process(sx, dev([per("P", 0, [reg("R", 0)], ab=[blk(o[i], s[i]) for i in range(n)])]))
    if expect_ok(sx, out) is None:
        return
    share = sx.Or(*[sx.And(o[i] < o[j] + s[j], o[j] < o[i] + s[i]) for i in range(n) for j in range(i)])
    sx.check(sx.eq(share, warned(sx, out, "ddress block", "overlap")), "overlapping address blocks are reported, others are not")
    sx.reach()


# ---------------------------------------------------------------------------------------------------------------------
LETTERS = "reservdRESVD_01"


def _reserved(sx, s):
    if len(s) != 8:
        return False
    return sx.And(*[sx.Or(sx.eq(s[i], "reserved"[i]), sx.eq(s[i], "RESERVED"[i])) for i in range(8)])


def reserved(sx, level, n, length):
    """n siblings, one with an arbitrary name of 7 to 9 letters: left out exactly if it reads reserved"""
    s = sx.text("s", length, length, LETTERS)
    at = sx.pick("at", list(range(n)))
    off = [sx.int("o%d" % i, 0, 0xFFFF) for i in range(n)]
    nm = ["A", "B", "C"][:n]
    nm[at] = s
    # what the element consists of makes no difference
    full = sx.pick("full", [False, True])

    def one(i):
        k = dict(description="d%d" % i)
        if full:
            k.update(access=sx.choice("acc%d" % i, ACC), read_action=ReadActionType.CLEAR, modified_write_values=ModifiedWriteValuesType.ONE_TO_CLEAR)
        if level == "fld":
            return fld(nm[i], lsb[i], 8, [evc([ev("V", "1"), ev("W", None, is_default=True)])] if full and i == at else [], **k)
        if full:
            k.update(display_name="shown", size=16, reset_value=5)
        return reg(nm[i], off[i], [fld("F", 0, 2, [evc([ev("V", "1")])])] if full else [], **k)

    lsb = [8 * i for i in range(n)]
    kids = [one(i) for i in range(n)]
    if level == "fld":
        d = dev([per("P", 0, [reg("R", 0, kids), reg("S", 8)])])
    elif level == "clu":
        d = dev([per("P", 0, [clu("C", 0, kids), reg("S", 0x100000)])])
    else:
        d = dev([per("P", 0, kids + [reg("S", 0x100000)])])
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    gone = _reserved(sx, s)
    p = pd.peripherals[0]
    got = p.registers if level != "fld" else p.registers[0].fields
    for i in range(n):
        there = [x for x in got if x.description == "d%d" % i]
        if i == at:
            sx.check(sx.eq(gone, len(there) == 0), "left out exactly if named reserved")
            sx.check(sx.eq(gone, warned(sx, out, "reserved", "ignored")), "reported exactly if left out")
        else:
            sx.check(len(there) == 1, "siblings are kept")
            if there and level != "fld":
                sx.check(sx.eq([there[0].name, there[0].address_offset], [nm[i], off[i]]), "siblings are unaffected")
            elif there:
                sx.check(sx.eq([there[0].name, there[0].lsb, there[0].msb], [nm[i], lsb[i], lsb[i] + 7]), "siblings are unaffected")
    sx.check(by_name(p.registers, "S") is not None, "other elements are kept")
    sx.reach()


def empty(sx, n):
    """clusters and peripherals with nothing (left) inside are left out with a report"""
    what = [sx.pick("w%d" % i, ["full", "empty", "reserved", "nested", "nestedfull"]) for i in range(n)]
    off = [sx.int("o%d" % i, 0, 0xFF) for i in range(n)]

    def kids(w):
        return {"full": lambda: [reg("R", 0)], "empty": lambda: [], "reserved": lambda: [reg("Reserved", 0)],
                "nested": lambda: [clu("X", 0, [])], "nestedfull": lambda: [clu("X", 0, [reg("R", 0, size=8)])]}[w]()

    # a cluster without any child has no width of its own, it states one here
    cs = [clu(NM[i], 0x100 * i + off[i], kids(what[i]), size=32) for i in range(n)]
    ps = [per("P", 0, cs + [reg("S", 0x10000)], ab=0x20000)]
    ps += [per(NM[i], 0x100000 * (i + 1) + off[i] * 4, kids(what[i]), size=32) for i in range(n)]
    out = process(sx, dev(ps))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    full = [w in ("full", "nestedfull") for w in what]
    want = [NM[i] for i in range(n) if full[i]]
    sx.check(sx.eq(names(pd.peripherals), ["P"] + want), "peripherals without registers are left out, others kept")
    sx.check(sx.eq(names(pd.peripherals[0].registers_clusters), want + ["S"]), "empty clusters are left out, others kept")
    for i in range(n):
        sx.check(sx.eq(not full[i], warned(sx, out, "Cluster", "'" + NM[i] + "'", "ignored")), "reported exactly if left out")
        sx.check(sx.eq(not full[i], warned(sx, out, "Peripheral", "'" + NM[i] + "'", "ignored")), "reported exactly if left out")
        c = by_name(pd.peripherals[0].registers_clusters, NM[i])
        if c is not None:
            sx.check(sx.eq([c.address_offset, c.base_address], [0x100 * i + off[i]] * 2), "others are unaffected")
    sx.reach()


def alignment(sx, n, where):
    """addresses of any alignment are kept; misaligned ones are reported, aligned ones not"""
    base = sx.int("base", 0, TOP)
    off = [0x1000 * i + sx.int("o%d" % i, 0, 0xFFF) for i in range(n)]
    size = [sx.choice("s%d" % i, [8, 16, 32, 64, 128]) for i in range(n)]
    kids = [reg(NM[i], off[i], size=size[i]) for i in range(n)]
    if where == "cluster":
        co = sx.int("co", 0, 0xFFFF)
        kids = [clu("K", co, kids)]
    out = process(sx, dev([per("P", base, kids)]))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    p = pd.peripherals[0]
    sx.check(sx.eq(p.base_address, base), "the peripheral is kept at its address")
    sx.check(sx.eq(base % 4 != 0, warned(sx, out, "'P'", "align")), "a peripheral is reported exactly if not word aligned")
    got = p.registers
    sx.check(sx.eq(len(got), n), "all registers are kept")
    for i in range(n):
        r = by_name(got, NM[i])
        sx.check(r is not None and sx.eq([r.address_offset, r.size], [off[i], size[i]]), "registers are kept at their offset")
        need = sx.ite(sx.eq(size[i], 8), 1, sx.ite(sx.eq(size[i], 16), 2, 4))
        sx.check(sx.eq(off[i] % need != 0, warned(sx, out, "'" + NM[i] + "'", "align")), "a register is reported exactly if misaligned")
    sx.reach()


def noblocks(sx, n):
    """a peripheral without address block (own or taken over) is refused"""
    has = [sx.pick("h%d" % i, [False, True]) for i in range(n)]
    der = [sx.pick("d%d" % i, [False, True]) if i else False for i in range(n)]
    ps = [per(NM[i], 0x1000 * i, [] if der[i] else [reg("R", 0)], ab=0x10 if has[i] else None,
              derived_from="A" if der[i] else None) for i in range(n)]
    out = process(sx, dev(ps))
    sx.observe("outcome", out.kind)
    good = all(has[i] or (der[i] and has[0]) for i in range(n))
    if good:
        sx.check(out.ok, "peripherals with address blocks are accepted")
    else:
        rejected(sx, out, "a peripheral without address block is refused")
    sx.reach()
