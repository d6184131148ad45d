"""Absolute addresses, extents, completeness and sorting of processed devices."""
from props.common import *

TOP = 2**64 - 1
SZ = [8, 16, 32, 64, 128]


def _addresses(sx, items, base, want, seen):
    """compare addresses of a processed container with name -> (offset, children or None)"""
    sx.check(sx.eq(len(items), len(want)), "container holds what is declared in it")
    for name, (off, sub) in want.items():
        it = by_name(items, name)
        if it is None:
            sx.fail("element of the container exists: " + name)
            continue
        sx.observe(name, it.base_address)
        sx.check(sx.eq(it.base_address, base + off), "absolute address is the sum of the offsets on the path")
        sx.check(sx.eq(it.address_offset, off), "offset is the declared offset plus the array step")
        if sub is None:
            seen.append((name, base + off, it))
        else:
            _addresses(sx, it.registers_clusters, base + off, sub, seen)


def _flat_list(sx, p, seen):
    sx.check(sx.eq(len(p.registers), len(seen)), "flat list has each register once")
    for name, adr, it in seen:
        ms = [r for r in p.registers if r is it]
        sx.check(sx.eq(len(ms), 1), "flat list holds the registers of the tree")
    for i in range(len(p.registers) - 1):
        a, b = p.registers[i], p.registers[i + 1]
        sx.check(a.base_address <= b.base_address, "flat list is ordered by address")
        sx.check(sx.Implies(sx.eq(a.base_address, b.base_address), a.name <= b.name), "equal addresses are ordered by name")


def nested(sx, depth, hi=TOP):
    """register and cluster at each of depth levels, every offset symbolic"""
    base = sx.int("base", 0, hi)
    offs = [(sx.int("r%d" % i, 0, hi), sx.int("c%d" % i, 0, hi)) for i in range(depth)]
    rc, want = None, None
    for i in range(depth - 1, -1, -1):
        r, c = offs[i]
        inner, w = [reg("R%d" % i, r)], {"R%d" % i: (r, None)}
        if rc is not None:
            inner.append(clu("C%d" % i, c, rc))
            w["C%d" % i] = (c, want)
        rc, want = inner, w
    pd = expect_ok(sx, process(sx, dev([per("P", base, rc, ab=TOP * 8)])))
    if pd is None:
        return
    p, seen = pd.peripherals[0], []
    sx.check(sx.eq(p.base_address, base), "peripheral base address")
    _addresses(sx, p.registers_clusters, base, want, seen)
    _flat_list(sx, p, seen)
    sx.reach()


def nested_deep(sx, depth):
    """clusters inside each other, one of which lies at any offset; a register in each"""
    base, c, r = sx.int("base", 0, TOP), sx.int("c", 0, TOP), sx.int("r", 0, 0xFF)
    free = sx.pick("free", [0, depth // 2, depth - 1])
    rc, want = None, None
    for i in range(depth - 1, -1, -1):
        o = c if i == free else 0x100 * (i + 1)
        inner, w = [reg("R%d" % i, r)], {"R%d" % i: (r, None)}
        if rc is not None:
            inner.append(clu("C%d" % i, o, rc))
            w["C%d" % i] = (o, want)
        rc, want = inner, w
    pd = expect_ok(sx, process(sx, dev([per("P", base, rc, ab=TOP * 8)])))
    if pd is None:
        return
    p, seen = pd.peripherals[0], []
    _addresses(sx, p.registers_clusters, base, want, seen)
    _flat_list(sx, p, seen)
    sx.reach()


def arrays(sx, n, m, k, tidy):
    """cluster array of cluster lists of register arrays; tidy: increments at least as large as the element"""
    base, o1, o2, o3 = (sx.int(x, 0, TOP) for x in ("base", "o1", "o2", "o3"))
    i3 = sx.int("i3", 4 if tidy else 0, 0xFFFF)
    i2 = sx.int("i2", 4 if tidy else 0, 0xFFFFFF)
    i1 = sx.int("i1", 4 if tidy else 0, TOP)
    if tidy:
        sx.assume(i2 >= i3 * k)
        sx.assume(i1 >= i2 * m)
    tree = clu("A[%s]", o1, [clu("B%s", o2, [reg("R[%s]", o3, dim=k, dim_increment=i3)], dim=m, dim_increment=i2)],
               dim=n, dim_increment=i1)
    pd = expect_ok(sx, process(sx, dev([per("P", base, [tree], ab=TOP * 8)])))
    if pd is None:
        return
    want = {"A%d" % a: (o1 + i1 * a, {"B%d" % b: (o2 + i2 * b, {"R%d" % c: (o3 + i3 * c, None) for c in range(k)})
                                      for b in range(m)}) for a in range(n)}
    p, seen = pd.peripherals[0], []
    _addresses(sx, p.registers_clusters, base, want, seen)
    _flat_list(sx, p, seen)
    sx.reach()


def derived(sx, what):
    """derived copies lie relative to their own place"""
    a, b, o, co, ro, own = (sx.int(x, 0, TOP) for x in ("a", "b", "o", "co", "ro", "own"))
    inc = sx.int("inc", 0x1000, 0xFFFFF)
    sx.assume(a + 0x100 < b)
    ro = sx.int("rr", 0, 0xFF)
    tree = {"C": (co, {"R": (ro, None)})}
    cl = lambda: clu("C", co, [reg("R", ro)])
    bump = 0x200000000
    if what == "peripheral":
        pa, pb = per("A", a, [cl()], ab=TOP * 8), per("B", b, [reg("OWN", co + bump)], ab=None, derived_from="A")
        wants = {"A": (a, tree), "B": (b, {**tree, "OWN": (co + bump, None)})}
    elif what == "chain":
        pa, pb = per("A", a, [cl()], ab=TOP * 8), per("B", b, [], ab=None, derived_from="A")
        pc = per("C", b + 0x1000, [], ab=None, derived_from="B")
        wants = {"A": (a, tree), "B": (b, tree), "C": (b + 0x1000, tree)}
    elif what == "array":
        pa = per("A", a, [cl()], ab=TOP * 8)
        pb = per("B[%s]", b, [], ab=None, derived_from="A", dim=2, dim_increment=inc)
        wants = {"A": (a, tree), "B0": (b, tree), "B1": (b + inc, tree)}
    elif what == "cluster":
        pa = per("A", a, [cl()], ab=TOP * 8)
        pb = per("B", b, [clu("D", o, [], derived_from="A.C"), clu("E", o + bump, [], derived_from="D")], ab=TOP * 8)
        wants = {"A": (a, tree), "B": (b, {"D": (o, {"R": (ro, None)}), "E": (o + bump, {"R": (ro, None)})})}
    elif what == "clusterarray":
        pa = per("A", a, [cl()], ab=TOP * 8)
        pb = per("B", b, [clu("D%s", o, [], derived_from="A.C", dim=2, dim_increment=inc)], ab=TOP * 8)
        wants = {"A": (a, tree), "B": (b, {"D0": (o, {"R": (ro, None)}), "D1": (o + inc, {"R": (ro, None)})})}
    elif what == "register":
        pa = per("A", a, [cl()], ab=TOP * 8)
        pb = per("B", b, [reg("D", o, derived_from="A.C.R"), reg("E[%s]", o + bump, derived_from="D", dim=2, dim_increment=inc)],
                 ab=TOP * 8)
        wants = {"A": (a, tree), "B": (b, {"D": (o, None), "E0": (o + bump, None), "E1": (o + bump + inc, None)})}
    elif what == "grown":
        # arrays of derived containers that bring children of their own; the base holds an array
        pa = per("A", a, [clu("C", co, [reg("R", ro), clu("S[%s]", 0x1000, [reg("T", 4)], dim=2, dim_increment=0x10)])], ab=TOP * 8)
        pb = per("B", b, [clu("D[%s]", o, [reg("OWN", 0x800), clu("N", 0x1100, [reg("Q%s", 8, dim=2, dim_increment=4)])],
                              derived_from="A.C", dim=3, dim_increment=inc)], ab=TOP * 8)
        sub = {"R": (ro, None), "S0": (0x1000, {"T": (4, None)}), "S1": (0x1010, {"T": (4, None)})}
        more = dict(sub, OWN=(0x800, None), N=(0x1100, {"Q0": (8, None), "Q1": (12, None)}))
        wants = {"A": (a, {"C": (co, sub)}), "B": (b, {"D%d" % i: (o + inc * i, more) for i in range(3)})}
    elif what == "grownperipheral":
        pa = per("A", a, [cl()], ab=TOP * 8)
        pb = per("B[%s]", b, [clu("N", bump * 2, [reg("Q", 8)]), reg("OWN", bump * 3)], ab=None, derived_from="A", dim=3, dim_increment=inc)
        t = dict(tree, N=(bump * 2, {"Q": (8, None)}), OWN=(bump * 3, None))
        sx.assume(co < bump)
        wants = {"A": (a, tree), "B0": (b, t), "B1": (b + inc, t), "B2": (b + inc * 2, t)}
    ps = [pa, pb]
    if what == "chain":
        ps.append(pc)
    pd = expect_ok(sx, process(sx, dev(ps)))
    if pd is None:
        return
    sx.check(sx.eq(names(pd.peripherals), list(wants)), "peripherals in address order")
    for name, (adr, want) in wants.items():
        p = by_name(pd.peripherals, name)
        if p is None:
            sx.fail("peripheral exists")
            continue
        seen = []
        sx.check(sx.eq(p.base_address, adr), "peripheral base address")
        _addresses(sx, p.registers_clusters, adr, want, seen)
        _flat_list(sx, p, seen)
    sx.reach()


def extents(sx, shape, nblocks):
    """ends and lengths of clusters and peripherals"""
    base = sx.int("base", 0, TOP)
    H = 0xFFFFF

    def r(n):
        o, s = sx.int(n + ".off", 0, H), sx.choice(n + ".size", SZ)
        return reg(n, o, size=s), o, s

    blocks = []
    for i in range(nblocks):
        blocks.append((sx.int("b%d.off" % i, 0, TOP), sx.int("b%d.size" % i, 1, TOP)))

    def byte(s):
        return s // 8

    clusters = {}
    if shape == "registers":
        (r1, o1, s1), (r2, o2, s2), (r3, o3, s3) = r("R1"), r("R2"), r("R3")
        rc = [r1, r2, r3]
        ends = [o1 + byte(s1), o2 + byte(s2), o3 + byte(s3)]
    elif shape == "cluster":
        (r1, o1, s1), (r2, o2, s2), (r3, o3, s3) = r("R1"), r("R2"), r("R3")
        c = sx.int("C.off", 0, H)
        rc = [clu("C", c, [r1, r2]), r3]
        ce = sx.max([o1 + byte(s1), o2 + byte(s2)])
        clusters["C"] = (c, ce)
        ends = [c + ce, o3 + byte(s3)]
    elif shape == "nested":
        (r1, o1, s1), (r2, o2, s2) = r("R1"), r("R2")
        c, k = sx.int("C.off", 0, H), sx.int("K.off", 0, H)
        rc = [clu("C", c, [clu("K", k, [r1]), r2])]
        ke = o1 + byte(s1)
        ce = sx.max([k + ke, o2 + byte(s2)])
        clusters["K"], clusters["C"] = (c + k, ke), (c, ce)
        ends = [c + ce]
    else:
        (r1, o1, s1), (r2, o2, s2) = r("R1"), r("R2")
        c, inc, rinc = sx.int("C.off", 0, H), sx.int("inc", 0, H), sx.int("rinc", 0, H)
        r1.name, r1.dim, r1.dim_increment = "R1[%s]", 2, rinc
        rc = [clu("C[%s]", c, [r1], dim=2, dim_increment=inc), r2]
        ce = rinc + o1 + byte(s1)
        clusters["C0"], clusters["C1"] = (c, ce), (c + inc, ce)
        ends = [c + inc + ce, o2 + byte(s2)]
    pd = expect_ok(sx, process(sx, dev([per("P", base, rc, ab=[blk(o, s) for o, s in blocks])])))
    if pd is None:
        return
    p = pd.peripherals[0]
    for it in walk(p.registers_clusters):
        if not isreg(it):
            adr, length = clusters[it.name]
            sx.observe(it.name, it.end_address)
            sx.check(sx.eq(it.end_address, base + adr + length - 1), "cluster ends at the last byte of its furthest register")
            sx.check(sx.eq(it.cluster_size, length), "cluster length in bytes")
    end = sx.max(ends)
    sx.observe("end", p.end_address_effective)
    sx.check(sx.eq(p.end_address_effective, base + end - 1), "peripheral effectively ends at the last byte of its furthest register")
    sx.check(sx.eq(p.peripheral_size_effective, end), "effective length of the peripheral")
    spec = sx.max([o + s for o, s in blocks])
    sx.check(sx.eq(p.end_address, base + spec - 1), "specified end is the last byte of the furthest address block")
    total = 0
    for o, s in blocks:
        total = total + s
    sx.check(sx.eq(p.peripheral_size, total), "specified length is that of all address blocks")
    sx.reach()


def _ordered(sx, items, key, what, named=True):
    for i in range(len(items) - 1):
        a, b = items[i], items[i + 1]
        sx.check(key(a) <= key(b), what + " are sorted")
        if named:
            sx.check(sx.Implies(sx.eq(key(a), key(b)), a.name <= b.name), what + " with equal keys are sorted by name")


def _complete(sx, items, declared, what):
    """each declared (name, key) pair occurs exactly once"""
    sx.check(sx.eq(len(items), len(declared)), what + ": as many as declared")
    for n in declared:
        sx.check(sx.eq(len([x for x in items if x.name == n]), 1), what + ": each occurs exactly once")


NAMES = ["_M", "B", "_A", "b1", "A"]


def sort_peripherals(sx, n):
    bases = [sx.int("b%d" % i, 0, TOP) for i in range(n)]
    ps = [per(NAMES[i], bases[i], [reg("R%d" % i, 0)]) for i in range(n)]
    pd = expect_ok(sx, process(sx, dev(ps)))
    if pd is None:
        return
    _complete(sx, pd.peripherals, NAMES[:n], "peripherals")
    _ordered(sx, pd.peripherals, lambda p: p.base_address, "peripherals")
    for i in range(n):
        p = by_name(pd.peripherals, NAMES[i])
        sx.check(sx.eq([p.base_address, names(p.registers)], [bases[i], ["R%d" % i]]), "peripheral keeps its content")
    sx.observe("order", names(pd.peripherals))
    sx.reach()


def sort_children(sx, kinds, where):
    """registers and clusters of one container; kinds e.g. 'rcr'"""
    n = len(kinds)
    offs = [sx.int("o%d" % i, 0, TOP) for i in range(n)]
    items = [reg(NAMES[i], offs[i]) if kinds[i] == "r" else clu(NAMES[i], offs[i], [reg("R%d" % i, 0)]) for i in range(n)]
    if where == "cluster":
        rc = [clu("C", 0x10, items)]
    else:
        rc = items
    pd = expect_ok(sx, process(sx, dev([per("P", 0, rc, ab=TOP * 4)])))
    if pd is None:
        return
    got = pd.peripherals[0].registers_clusters
    if where == "cluster":
        got = got[0].registers_clusters
    _complete(sx, got, NAMES[:n], "registers and clusters")
    _ordered(sx, got, lambda x: x.base_address, "registers and clusters")
    flat_names = [NAMES[i] if kinds[i] == "r" else "R%d" % i for i in range(n)]
    _complete(sx, pd.peripherals[0].registers, flat_names, "flat registers")
    _ordered(sx, pd.peripherals[0].registers, lambda x: x.base_address, "flat registers")
    sx.observe("order", names(got))
    sx.reach()


def sort_alternates(sx):
    """registers of alternate groups at the same or other addresses stay complete and sorted"""
    offs = [sx.int("o%d" % i, 0, 3) * 4 for i in range(3)]
    groups = [None, sx.opt("g1", "G"), sx.opt("g2", sx.choice("g2", ["G", "H"]))]
    nm = ["R", "S", "Q"]
    pd = expect_ok(sx, process(sx, dev([per("P", 0, [reg(nm[i], offs[i], alternate_group=groups[i]) for i in range(3)])])))
    if pd is None:
        return
    p = pd.peripherals[0]
    for items, what in ((p.registers_clusters, "registers"), (p.registers, "flat registers")):
        _complete(sx, items, nm, what)
        _ordered(sx, items, lambda x: x.base_address, what, named=False)
    for i in range(3):
        r = by_name(p.registers, nm[i])
        sx.check(sx.eq([r.alternate_group, r.base_address], [groups[i], offs[i]]), "register keeps its group and address")
    sx.reach()


def sort_fields(sx, n):
    lsbs = [sx.int("l%d" % i, 0, 24) for i in range(n)]
    ws = [sx.int("w%d" % i, 1, 8) for i in range(n)]
    acc = [AccessType.READ_ONLY, AccessType.WRITE_ONLY]
    for i in range(n):
        for j in range(i + 2, n, 2):
            sx.assume(sx.Or(lsbs[i] + ws[i] <= lsbs[j], lsbs[j] + ws[j] <= lsbs[i]))
    fs = [fld(NAMES[i], lsbs[i], ws[i], access=acc[i % 2]) for i in range(n)]
    pd = expect_ok(sx, process(sx, dev([per("P", 0, [reg("R", 0, fs)])])))
    if pd is None:
        return
    got = pd.peripherals[0].registers[0].fields
    _complete(sx, got, NAMES[:n], "fields")
    _ordered(sx, got, lambda f: f.lsb, "fields")
    for i in range(n):
        f = by_name(got, NAMES[i])
        sx.check(sx.eq([f.lsb, f.msb, f.access], [lsbs[i], lsbs[i] + ws[i] - 1, acc[i % 2]]), "field keeps its bits")
    sx.reach()


def sort_blocks(sx, n):
    """address blocks by offset, interrupts by number, each complete"""
    bo = [sx.int("bo%d" % i, 0, TOP) for i in range(n)]
    bs = [sx.int("bs%d" % i, 1, 0xFFFF) for i in range(n)]
    p = per("P", 0, [reg("R", 0)], ab=[blk(bo[i], bs[i]) for i in range(n)])
    pd = expect_ok(sx, process(sx, dev([p])))
    if pd is None:
        return
    got = pd.peripherals[0].address_blocks
    sx.check(sx.eq(len(got), n), "as many address blocks as declared")
    for i in range(n):
        same = [sx.And(sx.eq(b.offset, bo[i]), sx.eq(b.size, bs[i])) for b in got]
        sx.check(sx.Or(*same), "each declared address block is there")
    for b in got:
        sx.check(sx.Or(*[sx.And(sx.eq(b.offset, bo[i]), sx.eq(b.size, bs[i])) for i in range(n)]), "only declared address blocks")
    _ordered(sx, got, lambda b: b.offset, "address blocks", named=False)
    sx.reach()


def sort_interrupts(sx, n):
    iv = [sx.int("i%d" % i, 0, 0xFFFF) for i in range(n)]
    p = per("P", 0, [reg("R", 0)])
    p.interrupts = [SVDInterrupt(name=NAMES[i], value=iv[i]) for i in range(n)]
    pd = expect_ok(sx, process(sx, dev([p])))
    if pd is None:
        return
    got = pd.peripherals[0].interrupts
    _complete(sx, got, NAMES[:n], "interrupts")
    _ordered(sx, got, lambda i: i.value, "interrupts", named=False)
    for i in range(n):
        sx.check(sx.eq(by_name(got, NAMES[i]).value, iv[i]), "interrupt keeps its number")
    sx.reach()


def sort_values(sx, n):
    vs = [sx.int("v%d" % i, 0, 255) for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(sx.Not(sx.eq(vs[i], vs[j])))
    f = fld("F", 0, 8, [evc([ev(NAMES[i], sx.num(vs[i])) for i in range(n)])])
    pd = expect_ok(sx, process(sx, dev([per("P", 0, [reg("R", 0, [f])])])))
    if pd is None:
        return
    got = pd.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
    _complete(sx, got, NAMES[:n], "enumerated values")
    _ordered(sx, got, lambda v: v.value, "enumerated values", named=False)
    for i in range(n):
        sx.check(sx.eq(by_name(got, NAMES[i]).value, vs[i]), "enumerated value keeps its number")
    sx.reach()


def sort_crowd(sx, level, n):
    """n elements declared in no particular order and one whose place among them is free"""
    at = sx.pick("at", [0, n // 2, n])
    rank = [(i * 7 + 3) % n for i in range(n)]
    free = sx.int("free", 0, 2 * n) if level in ("fld", "val") else sx.int("free", 0, TOP)
    if level in ("fld", "val"):
        sx.assume(sx.eq(free % 2, 1))
        step = 2
    else:
        step = 64
    where = [step * r for r in rank]
    nm = ["E%d" % ((i * 11) % n) if level == "reg" else "E%d" % i for i in range(n)]
    where.insert(at, free)
    nm.insert(at, "N")
    mk = {"per": lambda i: per(nm[i], where[i], [reg("R", 0)], ab=4),
          "reg": lambda i: reg(nm[i], where[i]),
          "clu": lambda i: clu(nm[i], where[i], [reg("R%d" % i, 0)]),
          "mix": lambda i: reg(nm[i], where[i]) if i % 3 else clu(nm[i], where[i], [reg("R%d" % i, 0)]),
          "fld": lambda i: fld(nm[i], where[i], 1), "blk": lambda i: blk(where[i], i + 1),
          "int": lambda i: SVDInterrupt(name=nm[i], value=where[i]), "val": lambda i: ev(nm[i], sx.num(where[i]))}[level]
    items = [mk(i) for i in range(n + 1)]
    p = per("P", 0, [reg("R", 0)], ab=TOP * 4)
    if level in ("reg", "clu", "mix"):
        p.registers_clusters = items
    elif level == "fld":
        p.registers_clusters[0].fields = items
        p.registers_clusters[0].size = 64
    elif level == "val":
        p.registers_clusters[0].fields = [fld("F", 0, 7, [evc(items)])]
    elif level == "blk":
        p.address_blocks = items
    elif level == "int":
        p.interrupts = items
    pd = expect_ok(sx, process(sx, dev(items if level == "per" else [p])))
    if pd is None:
        return
    got = pd.peripherals
    if level != "per":
        q = got[0]
        r = q.registers[0] if q.registers else None
        got = {"blk": q.address_blocks, "int": q.interrupts, "fld": r and r.fields}.get(level, q.registers_clusters)
        if level == "val":
            got = r.fields[0].enumerated_value_containers[0].enumerated_values
    key = {"per": lambda x: x.base_address, "fld": lambda x: x.lsb, "blk": lambda x: x.offset,
           "int": lambda x: x.value, "val": lambda x: x.value}.get(level, lambda x: x.base_address)
    named = level in ("per", "reg", "clu", "mix")
    if level == "blk":
        sx.check(sx.eq(len(got), n + 1), "as many address blocks as declared")
        for i in range(n + 1):
            ms = [b for b in got if b.size == i + 1]
            sx.check(sx.eq(len(ms), 1), "each declared address block is there")
            if ms:
                sx.check(sx.eq(ms[0].offset, where[i]), "address block keeps its place")
    else:
        _complete(sx, got, nm, "elements")
        for i in range(n + 1):
            m = by_name(got, nm[i])
            if m is not None:
                sx.check(sx.eq(key(m), where[i]), "element keeps its place")
    _ordered(sx, got, key, "elements", named=named)
    if level in ("reg", "clu", "mix"):
        fl = pd.peripherals[0].registers
        _complete(sx, fl, [it.name if isinstance(it, SVDRegister) else it.registers_clusters[0].name for it in items], "flat registers")
        _ordered(sx, fl, lambda x: x.base_address, "flat registers")
    sx.observe("order", [key(x) for x in got])
    sx.reach()


def extents_crowd(sx, shape, n):
    """many registers, clusters or address blocks, of which one lies anywhere"""
    base, o, s = sx.int("base", 0, TOP), sx.int("o", 0, TOP), sx.choice("s", SZ)
    at = sx.pick("at", [0, n // 2, n])
    rank = [(i * 7 + 3) % n for i in range(n)]
    ab = [blk(0, TOP * 4)]
    total, spec = TOP * 4, TOP * 4
    clusters = {}
    if shape == "deep":
        # n clusters inside each other, each with a register at its start; the free register lies in the one at level `at`
        rc, want = [reg("L", 0)], 4
        for i in range(n, -1, -1):
            items, end = list(rc), want
            if i == at:
                items.append(reg("N", o, size=s))
                end = sx.max([end, o + s // 8])
            if i > 0:
                clusters["C%d" % i] = end
                rc, want = [clu("C%d" % i, 16, items), reg("S%d" % i, 0)], 16 + end
            else:
                rc, want = items, end
        end = want
    elif shape == "blocks":
        rc, end = [reg("R", 0)], 4
        bo, bs = sx.int("bo", 0, TOP), sx.int("bs", 1, TOP)
        ab = [blk(64 * r, 16 + r) for r in rank]
        ab.insert(at, blk(bo, bs))
        total = sum(16 + r for r in rank) + bs
        spec = sx.max([64 * (n - 1) + 16 + n - 1, bo + bs])
    else:
        items = [reg("R%d" % i, 16 * rank[i], size=SZ[i % 5]) for i in range(n)]
        items.insert(at, reg("N", o, size=s))
        end = sx.max([16 * rank[i] + SZ[i % 5] // 8 for i in range(n)] + [o + s // 8])
        rc = items
        if shape == "cluster":
            clusters["C"] = end
            rc = [reg("X", 0), clu("C", 0x20, items)]
            end = 0x20 + end
    pd = expect_ok(sx, process(sx, dev([per("P", base, rc, ab=ab)])))
    if pd is None:
        return
    p = pd.peripherals[0]
    seen = 0
    for it in walk(p.registers_clusters):
        if not isreg(it):
            seen = seen + 1
            sx.check(sx.eq([it.cluster_size, it.end_address], [clusters[it.name], it.base_address + clusters[it.name] - 1]),
                     "cluster ends at the last byte of its furthest register")
    sx.check(sx.eq(seen, len(clusters)), "every cluster is there")
    sx.check(sx.eq([p.end_address_effective, p.peripheral_size_effective], [base + end - 1, end]), "effective end and length of the peripheral")
    sx.check(sx.eq([p.end_address, p.peripheral_size], [base + spec - 1, total]), "specified end and length of the peripheral")
    sx.observe("end", p.end_address_effective)
    sx.reach()
