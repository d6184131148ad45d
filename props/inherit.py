"""Register-property inheritance (nearest enclosing definition wins, documented defaults)."""
from props.common import *

U32 = 0xFFFFFFFF


def make(sx, prop, tag):
    if prop == "access":
        return sx.choice(tag, ACC)
    if prop == "protection":
        return sx.choice(tag, PROT)
    return sx.int(tag, 0, 2**64 - 1)


DEFAULT = {"access": AccessType.READ_WRITE, "protection": ProtectionStringType.ANY, "reset_value": 0,
           "reset_mask": U32}


def levels(sx, props):
    """device -> peripheral -> cluster -> cluster -> register (-> field) with optional properties everywhere"""
    def kw(level, ps):
        return {p: sx.opt(f"{level}.{p}", make(sx, p, f"{level}.{p}")) for p in ps}

    kd, kp, kc, kk, kr, kr2, kr3 = (kw(l, props) for l in ("dev", "per", "clu", "sub", "reg", "reg2", "reg3"))
    kf = {}
    if "access" in props:
        kf = {"access": sx.opt("fld.access", make(sx, "access", "fld.access"))}
    f = fld("F", 0, 4, **kf)
    d = dev([
        per("P", 0x1000, [
            clu("C", 0x10, [
                clu("K", 0x4, [reg("R", 0x0, [f], **kr)], **kk),
                reg("R2", 0x20, **kr2),
            ], **kc),
            reg("R3", 0x40, **kr3),
        ], **kp),
    ], **kd)
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    p = pd.peripherals[0]
    c = by_name(p.registers_clusters, "C")
    k = by_name(c.registers_clusters, "K")
    r = k.registers_clusters[0]
    r2 = by_name(c.registers_clusters, "R2")
    r3 = by_name(p.registers_clusters, "R3")
    for x in props:
        df = DEFAULT[x]
        vd = near(sx, kd[x], df)
        vp = near(sx, kp[x], vd)
        vc = near(sx, kc[x], vp)
        vk = near(sx, kk[x], vc)
        vr = near(sx, kr[x], vk)
        for label, got, want in (("device", pd, vd), ("peripheral", p, vp), ("cluster", c, vc), ("nested cluster", k, vk),
                                 ("register in nested cluster", r, vr), ("register in cluster", r2, near(sx, kr2[x], vc)),
                                 ("register in peripheral", r3, near(sx, kr3[x], vp))):
            sx.observe(f"{label}.{x}", getattr(got, x))
            sx.check(sx.eq(getattr(got, x), want), f"{label} {x} is the nearest enclosing definition")
        if x == "access":
            sx.check(sx.eq(r.fields[0].access, near(sx, kf["access"], vr)), "field access is the nearest definition")
    sx.reach()


def constraint(sx):
    """a field without write constraint takes the one of its register, and only from there"""
    w = [SVDWriteConstraint(range_=(sx.int("lo%d" % i, 0, 2**64 - 1), sx.int("hi%d" % i, 0, U32)), write_as_read=sx.opt("w%d" % i, sx.bool("w%d" % i)))
         for i in range(2)]
    r = w[0] if sx.pick("reg", [False, True]) else None
    f = w[1] if sx.pick("fld", [False, True]) else None
    d = dev([per("P", 0, [reg("R", 0, [fld("F", 0, 4, write_constraint=f), fld("G", 4, 4)], write_constraint=r), reg("S", 4, [fld("H", 0, 4)])])])
    pd = expect_ok(sx, process(sx, d))
    if pd is None:
        return
    x, y = pd.peripherals[0].registers
    for got, want, what in ((x.fields[0], f if f is not None else r, "nearest"), (x.fields[1], r, "of the register"), (y.fields[0], None, "none")):
        g = got.write_constraint
        if want is None:
            sx.check(g is None, "write constraint of a field: " + what)
        else:
            sx.check(g is not None and sx.eq(list(g.range_), list(want.range_)), "write constraint of a field: " + what)
            sx.check(g is not None and sx.eq(g.write_as_read, want.write_as_read), "write constraint of a field: " + what)
    sx.reach()


def fields(sx, n):
    """each field takes what it does not state from its register, whatever the fields next to it state"""
    acc = sx.choice("acc", ACC[:2])
    w = SVDWriteConstraint(range_=(sx.int("lo", 0, U32), sx.int("hi", 0, U32)))
    own = [sx.opt("a%d" % i, sx.choice("a%d" % i, ACC[:2])) for i in range(n)]
    lows = [sx.int("l%d" % i, 0, U32) for i in range(n)]
    has = [sx.pick("w%d" % i, [False, True]) for i in range(n)]
    fs = [fld("F%d" % i, 3 * i, 2, access=own[i], write_constraint=SVDWriteConstraint(range_=(lows[i], U32)) if has[i] else None) for i in range(n)]
    pd = expect_ok(sx, process(sx, dev([per("P", 0, [reg("R", 0, fs, access=acc, write_constraint=w)])])))
    if pd is None:
        return
    got = pd.peripherals[0].registers[0].fields
    sx.check(sx.eq(names(got), ["F%d" % i for i in range(n)]), "fields")
    for i in range(n):
        sx.check(sx.eq(got[i].access, near(sx, own[i], acc)), "own access, else that of the register")
        g = got[i].write_constraint
        if g is None:
            sx.fail("own write constraint, else that of the register")
            continue
        sx.check(sx.eq(g.range_, (lows[i], U32) if has[i] else w.range_), "own write constraint, else that of the register")
    sx.reach()


def twin(sx, prop):
    """elements of equal names in different containers inherit from their own containers"""
    def m(tag):
        return sx.opt(tag, make(sx, prop, tag))

    kd = m("dev")
    st, ps = [], []
    for i in range(2):
        v = {x: m(x + str(i)) for x in ("per", "clu", "reg", "own")}
        st.append(v)
        ps.append(per("XY"[i], 0x1000 * i, [
            clu("X", 0, [reg("X", 0, [fld("X", 0, 4)], **{prop: v["reg"]}), reg("Y", 4)], **{prop: v["clu"]}),
            reg("Y", 0x20, [fld("X", 0, 4)], **{prop: v["own"]}),
        ], **{prop: v["per"]}))
    pd = expect_ok(sx, process(sx, dev(ps, **{prop: kd})))
    if pd is None:
        return
    for i in range(2):
        p, v = by_name(pd.peripherals, "XY"[i]), st[i]
        wp = near(sx, v["per"], kd, DEFAULT[prop])
        wc = near(sx, v["clu"], wp)
        c, y = by_name(p.registers_clusters, "X"), by_name(p.registers_clusters, "Y")
        cx, cy = by_name(c.registers_clusters, "X"), by_name(c.registers_clusters, "Y")
        for e, want in ((p, wp), (c, wc), (cx, near(sx, v["reg"], wc)), (cy, wc), (y, near(sx, v["own"], wp))):
            sx.observe("v%d" % i, getattr(e, prop))
            sx.check(sx.eq(getattr(e, prop), want), prop + " comes from the own containers, not from others of the same name")
            if prop == "access" and isreg(e) and e is not cy:
                sx.check(sx.eq(e.fields[0].access, want), "field access comes from the own register")
    sx.reach()


def deep(sx, prop, depth):
    """clusters inside each other, any of them stating the property, each with a register before and behind the inner one"""
    def m(tag):
        return sx.opt(tag, make(sx, prop, tag))

    kd, kp = m("dev"), m("per")
    kc = [m("c%d" % i) for i in range(depth)]
    ka, kl = m("a"), m("leaf")
    at = sx.pick("at", [0, depth // 2, depth - 1])
    loud = {"access": AccessType.WRITE_ONCE, "protection": ProtectionStringType.PRIVILEGED, "reset_value": 0x77, "reset_mask": 0x77}[prop]
    rc = [reg("L", 0, [fld("F", 0, 4)], **{prop: kl})]
    for i in range(depth - 1, -1, -1):
        rc = [reg("A", 0, **{prop: ka if i == at else loud}), clu("C", 0x10, rc, **{prop: kc[i]}), reg("Z", 0x8, [fld("F", 0, 4)] if i == at else [])]
    pd = expect_ok(sx, process(sx, dev([per("P", 0x1000, rc, **{prop: kp})], **{prop: kd})))
    if pd is None:
        return
    want = near(sx, kp, near(sx, kd, DEFAULT[prop]))
    here = pd.peripherals[0]
    for i in range(depth + 1):
        sx.check(sx.eq(getattr(here, prop), want), "container has the nearest enclosing definition")
        if i == depth:
            break
        a, z = by_name(here.registers_clusters, "A"), by_name(here.registers_clusters, "Z")
        sx.check(sx.eq(getattr(a, prop), near(sx, ka, want) if i == at else loud), "register has its own or the nearest enclosing definition")
        sx.check(sx.eq(getattr(z, prop), want), "register without own definition has that of its container, whatever its siblings state")
        if prop == "access" and i == at:
            sx.check(sx.eq(z.fields[0].access, want), "field access is the nearest definition")
        here = by_name(here.registers_clusters, "C")
        want = near(sx, kc[i], want)
    leaf = by_name(here.registers_clusters, "L")
    want = near(sx, kl, want)
    sx.observe("leaf", getattr(leaf, prop))
    sx.check(sx.eq(getattr(leaf, prop), want), "innermost register has the nearest definition")
    if prop == "access":
        sx.check(sx.eq(leaf.fields[0].access, want), "field access is the nearest definition")
    sx.reach()


def crowd(sx, prop, n):
    """many peripherals, registers and fields side by side, of which one states the property itself"""
    def m(tag):
        return sx.opt(tag, make(sx, prop, tag))

    kd, kp, kr, kn = m("dev"), m("per"), m("reg"), m("near")
    at = sx.pick("at", [0, n // 2, n - 1])
    ps = []
    for i in range(n):
        rs = [reg("R%d" % j, 4 * j, [fld("F", 0, 4), fld("G", 4, 4)], **({prop: kr} if i == j == at else {})) for j in range(n if i == at else 2)]
        if i == at:
            rs.append(clu("C", 0x400, [reg("R%d" % j, 4 * j, **({prop: kn} if j == at else {})) for j in range(n)]))
        ps.append(per("P%d" % i, 0x1000 * i, rs, **({prop: kp} if i == at else {})))
    pd = expect_ok(sx, process(sx, dev(ps, **{prop: kd})))
    if pd is None:
        return
    wd = near(sx, kd, DEFAULT[prop])
    for i in range(n):
        p = by_name(pd.peripherals, "P%d" % i)
        wp = near(sx, kp, wd) if i == at else wd
        sx.check(sx.eq(getattr(p, prop), wp), "peripheral has its own or the device's definition")
        for r in p.registers:
            pos = r.base_address - p.base_address
            own = kr if (i == at and pos == 4 * at) else kn if (i == at and pos == 0x400 + 4 * at) else None
            w = near(sx, own, wp)
            sx.check(sx.eq(getattr(r, prop), w), "register has its own definition or that of its container")
            if prop == "access":
                for f in r.fields:
                    sx.check(sx.eq(f.access, w), "field access is the nearest definition")
    sx.reach()
