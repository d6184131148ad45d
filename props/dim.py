"""Expansion of dim arrays and lists: count, names, index text, addresses, display names."""
from props.common import *

TOP = 2**40


def _idx(sx, form, n, tag):
    """(dimIndex text or None, list of index texts) for a form with n entries"""
    if form == "none":
        return None, [str(i) for i in range(n)]
    if form == "num":
        lo = sx.int(tag + ".lo", 0, 120) if n < 5 else sx.pick(tag + ".lo", [0, 3, 95])
        return sx.num(lo) + "-" + sx.num(lo + n - 1), [sx.num(lo + i) for i in range(n)]
    if form == "alpha":
        first = min(ord("D"), ord("Z") - n + 1)
        return chr(first) + "-" + chr(first + n - 1), [chr(first + i) for i in range(n)]
    toks = (["x1", "Q", "_z", "9"] + ["k%d" % (7 * i) for i in range(n)])[:n]
    return (", " if form == "list2" else ",").join(toks), toks


def register(sx, kind, form, n):
    """a register array/list inside a cluster"""
    inc, off = sx.int("inc", 0, TOP), sx.int("off", 0, TOP)
    base, coff = sx.int("base", 0, TOP), sx.int("coff", 0, TOP)
    text, idx = _idx(sx, form, n, "r") if kind == "list" else (("7-%d" % (6 + n) if form == "num" else None), [str(i) for i in range(n)])
    ph = "[%s]" if kind == "array" else "%s"
    twice = sx.pick("twice", [False, True]) if n <= 4 else True
    dn = sx.opt("dn", "Disp " + ph + (" and " + ph + "!" if twice else "!"))
    r = reg("R" + ph + ("_" + ph if twice and kind == "list" else "_"), off, [fld("F", 0, 3)], dim=n, dim_increment=inc, dim_index=text, display_name=dn,
            description="text")
    d = dev([per("P", base, [clu("C", coff, [r])], ab=2**48)])
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    c = pd.peripherals[0].registers_clusters[0]
    rs = c.registers_clusters
    sx.check(sx.eq(len(rs), n), "one register per index")
    sx.check(sx.eq(len(pd.peripherals[0].registers), n), "flat list has one register per index")
    for i in range(n):
        want = "R" + idx[i] + ("_" + idx[i] if twice and kind == "list" else "_")
        m = [x for x in rs if x.name == want]
        sx.observe("count", len(m))
        sx.check(sx.eq(len(m), 1), "each index name occurs exactly once")
        if len(m) != 1:
            continue
        x = m[0]
        sx.check(sx.eq(x.address_offset, off + inc * i), "element offset is offset + increment * position")
        sx.check(sx.eq(x.base_address, base + coff + off + inc * i), "element address")
        sx.check(sx.eq(x.display_name, sx.ite(dn is not None, "Disp " + idx[i] + (" and " + idx[i] + "!" if twice else "!"), None)), "element display name")
        sx.check(x.description == "text", "element keeps the description")
        sx.check(sx.eq([len(x.fields), x.fields[0].name, x.fields[0].lsb, x.fields[0].msb], [1, "F", 0, 2]),
                 "element has the fields")
    sx.reach()


def cluster(sx, kind, form, n, m):
    """cluster array/list with a register array inside"""
    inc, off, rinc, roff = sx.int("inc", 0, TOP), sx.int("off", 0, TOP), sx.int("rinc", 0, TOP), sx.int("roff", 0, TOP)
    base = sx.int("base", 0, TOP)
    text, idx = _idx(sx, form, n, "c") if kind == "list" else (None, [str(i) for i in range(n)])
    ph = "[%s]" if kind == "array" else "%s"
    d = dev([per("P", base, [clu("C" + ph, off, [reg("R[%s]", roff, dim=m, dim_increment=rinc)], dim=n, dim_increment=inc,
                                  dim_index=text)], ab=2**48)])
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    p = pd.peripherals[0]
    sx.check(sx.eq(len(p.registers_clusters), n), "one cluster per index")
    sx.check(sx.eq(len(p.registers), n * m), "every register of every cluster element")
    for i in range(n):
        cs = [x for x in p.registers_clusters if x.name == "C" + idx[i]]
        sx.check(sx.eq(len(cs), 1), "each cluster name occurs exactly once")
        if len(cs) != 1:
            continue
        c = cs[0]
        sx.observe("off", c.address_offset)
        sx.check(sx.eq(c.address_offset, off + inc * i), "cluster element offset")
        sx.check(sx.eq(c.base_address, base + off + inc * i), "cluster element address")
        sx.check(sx.eq(len(c.registers_clusters), m), "nested array length")
        for j in range(m):
            rs = [x for x in c.registers_clusters if x.name == "R" + str(j)]
            sx.check(sx.eq(len(rs), 1), "nested register name occurs exactly once")
            if len(rs) == 1:
                sx.check(sx.eq(rs[0].base_address, base + off + inc * i + roff + rinc * j), "nested element address")
    sx.reach()


def peripheral(sx, n):
    """peripheral array; interrupts and address blocks belong to every element"""
    inc, base, off = sx.int("inc", 0, TOP), sx.int("base", 0, TOP), sx.int("off", 0, TOP)
    bo, bs = sx.int("bo", 0, TOP), sx.int("bs", 1, TOP)
    d = dev([per("P[%s]", base, [reg("R", off)], ab=[blk(bo, bs)], dim=n, dim_increment=inc,
                 interrupts=[SVDInterrupt(name="I", value=3)])])
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    sx.check(sx.eq(len(pd.peripherals), n), "one peripheral per index")
    for i in range(n):
        ps = [x for x in pd.peripherals if x.name == "P" + str(i)]
        sx.check(sx.eq(len(ps), 1), "each peripheral name occurs exactly once")
        if len(ps) != 1:
            continue
        p = ps[0]
        sx.observe("base", p.base_address)
        sx.check(sx.eq(p.base_address, base + inc * i), "peripheral element address")
        sx.check(sx.eq([len(p.registers), p.registers[0].base_address], [1, base + inc * i + off]), "its registers move along")
        sx.check(sx.eq([p.address_blocks[0].offset, p.address_blocks[0].size], [bo, bs]), "its address block")
        sx.check(sx.eq(p.interrupts[0].value, 3), "its interrupt")
    sx.reach()


def field(sx, form, n):
    """field list with all three bit notations"""
    wide = n > 5
    inc, lsb, w = sx.int("inc", 4, 9 if not wide else 4), sx.int("lsb", 0, 20), sx.int("w", 1, 4)
    style = sx.choice("style", ["ow", "lm"])
    text, idx = _idx(sx, form, n, "f")
    ow = sx.eq(style, "ow")
    f = SVDField(name="F%sG", bit_offset=sx.ite(ow, lsb, None), bit_width=sx.ite(ow, w, None),
                 lsb=sx.ite(ow, None, lsb), msb=sx.ite(ow, None, lsb + w - 1), dim=n, dim_increment=inc, dim_index=text,
                 enumerated_value_containers=[evc([ev("a", "0")])])
    out = process(sx, dev([per("P", 0, [reg("R", 0, [f], size=64 if not wide else 128)])]))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    fs = pd.peripherals[0].registers[0].fields
    sx.check(sx.eq(len(fs), n), "one field per index")
    for i in range(n):
        ms = [x for x in fs if x.name == "F" + idx[i] + "G"]
        sx.check(sx.eq(len(ms), 1), "each field name occurs exactly once")
        if len(ms) == 1:
            sx.check(sx.eq([ms[0].lsb, ms[0].msb], [lsb + inc * i, lsb + w - 1 + inc * i]), "field element position")
            sx.check(sx.eq(ms[0].enumerated_value_containers[0].enumerated_values[0].name, "a"), "field element enumeration")
    sx.reach()


def count(sx, level, top=6):
    """symbolic dim: number of elements equals dim, dim below 1 rejected"""
    n = sx.int("dim", -2, top)
    k = dict(dim=n, dim_increment=sx.int("inc", 4, 64))
    if level == "per":
        d = dev([per("P[%s]", 0, [reg("R", 0)], **k)])
    elif level == "clu":
        d = dev([per("P", 0, [clu("C[%s]", 0, [reg("R", 0)], **k)])])
    elif level == "reg":
        d = dev([per("P", 0, [reg("R[%s]", 0, **k)])])
    elif level == "reglist":
        d = dev([per("P", 0, [reg("R%s", 0, **k)])])
    else:
        d = dev([per("P", 0, [reg("R", 0, [fld("F%s", 0, 2, **k)], size=64)])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    sx.check(sx.Implies(n >= 1, out.ok), "dim >= 1 is processed")
    sx.check(sx.Implies(n < 1, out.isa("ProcessException")), "dim < 1 is rejected")
    if out.ok:
        p = out.value.peripherals
        items = p if level == "per" else p[0].registers_clusters if level != "fld" else p[0].registers[0].fields
        sx.check(sx.eq(len(items), n), "number of elements equals dim")
    sx.reach()


def misuse(sx, level):
    """placeholders without dim, dim without placeholder, wrong kind of placeholder, mismatching display name"""
    name = sx.pick("name", ["N", "N%s", "N[%s]"])
    dim = sx.pick("dim", [None, 2])
    dn = sx.pick("dn", [None, "D", "D%s", "D[%s]"]) if level == "reg" else None
    k = dict(dim=dim, dim_increment=16 if dim else None)
    if level == "per":
        d = dev([per(name, 0x1000, [reg("R", 0)], **k)])
    elif level == "clu":
        d = dev([per("P", 0, [clu(name, 0, [reg("R", 0)], **k)])])
    elif level == "reg":
        d = dev([per("P", 0, [reg(name, 0, display_name=dn, **k)])])
    else:
        d = dev([per("P", 0, [reg("R", 0, [fld(name, 0, 2, **k)])])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    ph = "%s" in name
    arr = "[%s]" in name
    bad = (ph and dim is None) or (dim and ph and ((arr and level == "fld") or (not arr and level == "per")))
    if dn is not None:
        if (dim is None or not ph) and "%s" in dn:
            bad = True
        if dim and ph and arr and "%s" in dn and "[%s]" not in dn:
            bad = True
        if dim and ph and not arr and "[%s]" in dn:
            bad = True
    sx.check(out.ok == (not bad), "exactly the consistent combinations are accepted")
    sx.check(out.ok or out.isa("ProcessException"), "rejection is a processing error")
    if dim and not ph and not bad:
        sx.check(warned(sx, out, "N", "%s"), "dim without placeholder is reported")
        ps = out.value.peripherals
        items = ps if level == "per" else ps[0].registers_clusters if level != "fld" else ps[0].registers[0].fields
        sx.check(sx.eq(len(items), 1), "dim without placeholder is a single element")
    sx.reach()
