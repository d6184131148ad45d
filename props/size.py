"""Effective sizes: a container is as wide as its widest direct child, unsized elements follow their container."""
from props.common import *

SIZES = [8, 16, 32, 64]


def tree(sx, odd=False, zero=()):
    """device -> peripheral -> {register, register, cluster -> {register, cluster -> register}}, sizes optional"""
    def s(name, opts=SIZES):
        return None if name in zero else sx.opt(name, sx.choice(name, opts))

    dv, pv, cv, kv = s("dev"), s("per"), s("clu"), s("sub")
    a, b, c, e = s("rA"), s("rB"), s("rC"), s("rE")
    extra = sx.choice("odd", [1, 7, 12, 33]) if odd else None
    rcs = [
        reg("A", 0, size=a), reg("B", 8, size=b),
        clu("C", 0x20, [reg("RC", 0, size=c), clu("K", 0x10, [reg("RE", 0, size=e)], size=kv)], size=cv),
    ]
    if odd:
        rcs.append(reg("ODD", 0x40, size=extra))
    d = dev([per("P", 0x1000, rcs, size=pv)], size=dv)
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    p = pd.peripherals[0]
    cl = by_name(p.registers_clusters, "C")
    k = by_name(cl.registers_clusters, "K")
    fb = near(sx, pv, dv, 32)
    ksize = near(sx, e, kv, cv, fb)
    csize = sx.max([near(sx, c, cv, fb), ksize])
    psize = sx.max([near(sx, a, fb), near(sx, b, fb), csize])
    sx.check(sx.eq(pd.size, near(sx, dv, 32)), "device size is the stated size or 32")
    sx.check(sx.eq(k.size, ksize), "nested cluster is as wide as its widest register")
    sx.check(sx.eq(cl.size, csize), "cluster is as wide as its widest direct child")
    sx.check(sx.eq(p.size, psize), "peripheral is as wide as its widest direct child")
    for n, own, cont, got in (
        ("A", a, psize, by_name(p.registers_clusters, "A")), ("B", b, psize, by_name(p.registers_clusters, "B")),
        ("RC", c, csize, by_name(cl.registers_clusters, "RC")), ("RE", e, ksize, k.registers_clusters[0]),
    ):
        sx.observe(n, got.size)
        sx.check(sx.eq(got.size, near(sx, own, cont)), "register size is the stated size or its container's width")
    if odd:
        sx.check(by_name(p.registers_clusters, "ODD") is None, "register whose size is no multiple of 8 is left out")
        sx.check(warned(sx, out, "ODD"), "left out register is reported")
    sx.reach()


def unsupported(sx):
    """register sizes outside 8/16/32/64/128 (multiples of 8) are rejected, the others accepted"""
    n = sx.int("n", 1, 40)
    out = process(sx, dev([per("P", 0, [reg("R", 0, size=n * 8)])]))
    sx.observe("outcome", out.kind)
    good = sx.isin(n, [1, 2, 4, 8, 16])
    sx.check(sx.eq(good, out.ok), "exactly the supported register sizes are accepted")
    sx.check(sx.Or(out.ok, out.isa("ProcessException")), "rejection is a processing error")
    sx.reach()


def dims(sx):
    """arrays of clusters keep the size rule for every element"""
    cv, a, b = sx.opt("clu", sx.choice("clu", SIZES)), sx.opt("a", sx.choice("a", SIZES)), sx.opt("b", sx.choice("b", SIZES))
    dv = sx.opt("dev", sx.choice("dev", SIZES))
    n = sx.int("dim", 1, 3)
    d = dev([per("P", 0, [clu("C[%s]", 0, [reg("A", 0, size=a), reg("B", 8, size=b)], size=cv, dim=n, dim_increment=0x40)])],
            size=dv)
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    p = pd.peripherals[0]
    fb = near(sx, cv, dv, 32)
    w = sx.max([near(sx, a, fb), near(sx, b, fb)])
    sx.check(sx.eq(p.size, w), "peripheral width over cluster array")
    sx.check(sx.eq(len(p.registers_clusters), n), "array length")
    for c in p.registers_clusters:
        sx.check(sx.eq(c.size, w), "array element width")
        for r, own in zip(c.registers_clusters, (a, b)):
            sx.check(sx.eq(r.size, near(sx, own, w)), "register width in array element")
    sx.reach()


def twin(sx, nested):
    """elements of equal names in different containers are sized on their own"""
    def s(name):
        return sx.opt(name, sx.choice(name, SIZES))

    dv = s("dev")
    pv, cv, rv, want = [], [], [], []
    ps = []
    for i in range(2):
        pv.append(s("per%d" % i)), cv.append(s("clu%d" % i)), rv.append(s("reg%d" % i))
        inner = [reg("R", 0, size=rv[i]), reg("S", 8)]
        items = [clu("C", 0, [clu("C", 0, inner)] if nested else inner, size=cv[i]), reg("R", 0x100)]
        ps.append(per("P%d" % i, 0x1000 * i, items, size=pv[i]))
    out = process(sx, dev(ps, size=dv))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    for i in range(2):
        p = by_name(pd.peripherals, "P%d" % i)
        own = near(sx, pv[i], dv, 32)
        fb = near(sx, cv[i], own)
        w = sx.max([near(sx, rv[i], fb), fb])
        pw = sx.max([w, own])
        c = by_name(p.registers_clusters, "C")
        k = c.registers_clusters[0] if nested else c
        sx.observe("size%d" % i, c.size)
        sx.check(sx.eq([p.size, c.size, k.size], [pw, w, w]), "containers of equal names have their own width")
        sx.check(sx.eq([by_name(k.registers_clusters, "R").size, by_name(k.registers_clusters, "S").size], [near(sx, rv[i], w), w]),
                 "registers follow the container they are in")
        sx.check(sx.eq(by_name(p.registers_clusters, "R").size, pw), "a register of an equal name follows its own container")
    sx.reach()


def deep(sx, depth):
    """clusters inside each other, any of them sized, the innermost register sized or not"""
    dv, pv = sx.opt("dev", sx.choice("dev", SIZES)), sx.opt("per", sx.choice("per", SIZES))
    cv = [sx.opt("c%d" % i, sx.choice("c%d" % i, SIZES)) for i in range(depth)]
    lv = sx.opt("leaf", sx.choice("leaf", SIZES + [128]))
    rc = [reg("L", 0, size=lv)]
    for i in range(depth - 1, -1, -1):
        rc = [reg("A", 0x80, size=8), clu("C", 0, rc, size=cv[i]), reg("Z", 0x90)]
    pd = expect_ok(sx, process(sx, dev([per("P", 0, rc, size=pv)], size=dv)))
    if pd is None:
        return
    own = [near(sx, pv, dv, 32)]
    for i in range(depth):
        own.append(near(sx, cv[i], own[i]))
    width = [None] * (depth + 1)
    width[depth] = near(sx, lv, own[depth])
    for i in range(depth - 1, -1, -1):
        width[i] = sx.max([width[i + 1], own[i]])
    here = pd.peripherals[0]
    for i in range(depth + 1):
        sx.observe("w%d" % i, here.size)
        sx.check(sx.eq(here.size, width[i]), "container is as wide as its widest direct child")
        if i == depth:
            sx.check(sx.eq(by_name(here.registers_clusters, "L").size, near(sx, lv, width[depth])), "register has its own size or its container's")
            break
        sx.check(sx.eq(by_name(here.registers_clusters, "A").size, 8), "register has the size stated on it")
        sx.check(sx.eq(by_name(here.registers_clusters, "Z").size, width[i]), "unsized register follows its container")
        here = by_name(here.registers_clusters, "C")
    sx.reach()


def crowd(sx, n):
    """many registers and clusters side by side, of which one register states its size"""
    at = sx.pick("at", [0, n // 2, n - 1])
    dv, pv = sx.opt("dev", sx.choice("dev", SIZES)), sx.opt("per", sx.choice("per", SIZES))
    s, t, cv = sx.opt("s", sx.choice("s", SIZES)), sx.opt("t", sx.choice("t", SIZES)), sx.opt("c", sx.choice("c", SIZES))
    rs = [reg("R%d" % i, 16 * i, size=s if i == at else (16 if i % 3 == 1 else None)) for i in range(n)]
    cs = [clu("C%d" % i, 0x1000 * (i + 1), [reg("R%d" % j, 16 * j, size=t if i == j == at else None) for j in range(n if i == at else 1)],
              size=cv if i == at else None) for i in range(n)]
    pd = expect_ok(sx, process(sx, dev([per("P", 0, rs + cs, size=pv, ab=0x1000000), per("Q", 0x10000000, [reg("R0", 0)])], size=dv)))
    if pd is None:
        return
    base = near(sx, pv, dv, 32)
    fb = near(sx, cv, base)
    cw = sx.max([near(sx, t, fb), fb])
    pw = sx.max([near(sx, s, base), base, 16, cw])
    p, q = by_name(pd.peripherals, "P"), by_name(pd.peripherals, "Q")
    sx.check(sx.eq(p.size, pw), "peripheral is as wide as its widest direct child")
    sx.check(sx.eq([q.size, q.registers[0].size], [near(sx, dv, 32)] * 2), "another peripheral has its own width")
    for i in range(n):
        want = near(sx, s, pw) if i == at else 16 if i % 3 == 1 else pw
        sx.check(sx.eq(by_name(p.registers_clusters, "R%d" % i).size, want), "register has its own size or its container's")
        c = by_name(p.registers_clusters, "C%d" % i)
        w = cw if i == at else base
        sx.check(sx.eq(c.size, w), "cluster is as wide as its widest direct child")
        for r in c.registers_clusters:
            sx.check(sx.eq(r.size, near(sx, t, w) if i == at and r.name == "R%d" % at else w), "register in a cluster has its own size or the cluster's")
    sx.reach()
