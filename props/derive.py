"""Derivation: inherited properties, copied children, references, cycles, order of declaration."""
from props.common import *

TOP = 2**64 - 1
MWV, RA, DT = list(ModifiedWriteValuesType), list(ReadActionType), list(DataTypeType)
GROUP = ["access", "protection", "reset_value", "reset_mask"]
TEXTS = {
    "per": ["version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name", "disable_condition"],
    "clu": ["description", "alternate_cluster", "header_struct_name"],
    "reg": ["display_name", "description", "alternate_group", "alternate_register"],
    "fld": ["description"],
}
DEFAULTS = {"access": AccessType.READ_WRITE, "protection": ProtectionStringType.ANY, "reset_value": 0, "reset_mask": 0xFFFFFFFF}


def _value(sx, name, prop):
    if prop == "access":
        return sx.choice(name, ACC)
    if prop == "protection":
        return sx.choice(name, PROT)
    if prop in ("reset_value", "reset_mask"):
        return sx.int(name, 0, TOP)
    if prop == "modified_write_values":
        return sx.choice(name, MWV)
    if prop == "read_action":
        return sx.choice(name, RA)
    if prop == "data_type":
        return sx.choice(name, DT)
    if prop == "size":
        return sx.choice(name, [8, 16, 32, 64])
    if prop == "display_name":
        return sx.ite(sx.bool(name + ".none"), "", sx.text(name, 2, 2, "abc_09"))
    if prop in ("alternate_peripheral", "alternate_cluster", "alternate_register", "alternate_group"):
        return sx.text(name, 2, 2, "abc_09")
    return anytext(sx, name, 2, "abc_09")


def _state(sx, who, props):
    """each property stated or not on this element"""
    return {p: sx.opt(who + "." + p, _value(sx, who + "." + p, p)) for p in props}


def _constraint(sx, who):
    how = sx.pick(who + ".wc", ["none", "read", "enum", "range"])
    if how == "none":
        return None
    if how == "range":
        return SVDWriteConstraint(range_=(sx.int(who + ".min", 0, TOP), sx.int(who + ".max", 0, TOP)))
    return SVDWriteConstraint(write_as_read=True if how == "read" else None,
                              use_enumerated_values=True if how == "enum" else None)


def _constraint_is(sx, got, *want):
    w = None
    for x in want:
        if w is None:
            w = x
    if w is None:
        sx.check(got is None, "no write constraint where none is stated")
    elif got is None:
        sx.fail("write constraint is taken over")
    else:
        sx.check(sx.eq([got.write_as_read, got.use_enumerated_values, got.range_],
                       [w.write_as_read, w.use_enumerated_values, w.range_]), "write constraint is that of the nearest that states one")


def _props(level):
    if level == "reg":
        return GROUP + ["size", "modified_write_values", "read_action", "data_type"]
    if level == "fld":
        return ["access", "modified_write_values", "read_action"]
    return list(GROUP)


def _stated(sx, who, level, part):
    """the properties of one part of the level's list"""
    props = [p for p in _props(level) + TEXTS[level] if p in part]
    return _state(sx, who, props)


def inherit(sx, level, part, chain):
    """derived <- base (<- root): every property stated or not on each, enclosing levels stated on both sides"""
    n = 3 if chain else 2
    if level == "reg" and "alternate_group" in part:
        assert "alternate_register" not in part
    st = [_stated(sx, "abc"[i], level, part) for i in range(n)]
    enc = _state(sx, "enc", [p for p in GROUP if p in part])      # peripheral around the base
    enc2 = _state(sx, "enc2", [p for p in GROUP if p in part])    # peripheral around the derived element
    dv = _state(sx, "dv", [p for p in GROUP if p in part])
    wcs = [None] * n
    if level in ("reg", "fld") and "write_constraint" in part:
        wcs = [_constraint(sx, "abc"[i]) for i in range(n)]
    nm = ["A", "B", "C"]
    extra = {"write_constraint": None} if level in ("reg", "fld") else {}
    pers, items = [], []
    if level == "per":
        for i in range(n):
            pers.append(per(nm[i], 0x1000 * i, [reg("R", 0)] if i == 0 else [], ab=0x100 if i == 0 else None,
                            derived_from=nm[i - 1] if i else None, **st[i]))
    else:
        for i in range(n):
            df = None if i == 0 else ["P.A", "B"][i - 1]
            if level == "fld" and i == 1:
                df = "P.R.A"
            k = dict(st[i], derived_from=df)
            if extra:
                k["write_constraint"] = wcs[i]
            if level == "clu":
                items.append(clu(nm[i], 0x100 * i, [reg("R", 0)] if i == 0 else [], **k))
            elif level == "reg":
                items.append(reg(nm[i], 0x100 * i, **k))
            else:
                items.append(fld(nm[i], 4 * i, 4, **k))
        if level == "fld":
            pers = [per("P", 0, [reg("R", 0, [items[0]])], **enc), per("Q", 0x1000, [reg("S", 0, items[1:])], **enc2)]
        else:
            pers = [per("P", 0, [items[0]], **enc), per("Q", 0x1000, items[1:], **enc2)]
    out = process(sx, dev(pers, **dv))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    for i in range(n):
        if level == "per":
            got = by_name(pd.peripherals, nm[i])
        else:
            rc = by_name(pd.peripherals, "P" if i == 0 else "Q").registers_clusters
            got = by_name(rc[0].fields if level == "fld" else rc, nm[i])
        if got is None:
            sx.fail("derived element exists")
            return
        around = enc if i == 0 else enc2
        for p in st[i]:
            vals = [st[j][p] for j in range(i, -1, -1)]
            if p == "size":
                # the only register of its container / the container is as wide as its widest register
                want = near(sx, *vals, 32)
                if i == 0 or not chain:
                    sx.check(sx.eq(got.size, want), "size is that of the nearest that states it")
                else:
                    sx.check(sx.Implies(sx.Or(*[v is not None for v in vals]), sx.eq(got.size, want)),
                             "size is that of the nearest that states it")
                continue
            if p in GROUP:
                if level == "per":
                    vals += [dv[p], DEFAULTS[p]]
                else:
                    vals += [around[p], dv[p], DEFAULTS[p]]
            elif p == "modified_write_values":
                vals.append(ModifiedWriteValuesType.MODIFY)
            else:
                vals.append(None)
            v = getattr(got, p)
            sx.observe(nm[i] + "." + p, v)
            sx.check(sx.eq(v, near(sx, *vals)), "own value, else the base's, else the enclosing level's: " + p)
        if level in ("reg", "fld") and "write_constraint" in part:
            _constraint_is(sx, got.write_constraint, *[wcs[j] for j in range(i, -1, -1)])
        if level == "per" and "access" in part:
            kid = got.registers[0]
            for p in GROUP:
                sx.check(sx.eq(getattr(kid, p), getattr(got, p)), "copied register follows the derived peripheral: " + p)
    sx.reach()


def excluded(sx):
    """header struct name and interrupts of a peripheral stay its own; name and position too; address blocks if stated"""
    hs = [sx.opt("h%d" % i, sx.text("h%d" % i, 2, 2, "abc")) for i in range(2)]
    ints = [sx.pick("int%d" % i, [0, 1, 2]) for i in range(2)]
    iv = [[sx.int("iv%d%d" % (i, j), 0, 99) for j in range(ints[i])] for i in range(2)]
    own = sx.pick("blocks", [0, 1, 2])
    ob = [(sx.int("o%d" % j, 0, 0xFFFF), sx.int("s%d" % j, 1, 0xFFFF)) for j in range(own)]
    nb = sx.pick("baseblocks", [1, 3])
    bb = [(sx.int("bo", 0, 0xFFFF), sx.int("bs", 1, 0xFFFF))] + [(0x20000 * i, 0x100) for i in range(1, nb)]
    a, b = sx.int("a", 0, TOP), sx.int("b", 0, TOP)
    sx.assume(sx.Not(sx.eq(a, b)))
    ps = [per("A", a, [reg("R", 0)], ab=[blk(*x) for x in bb], header_struct_name=hs[0]),
          per("B", b, [], ab=[blk(*x) for x in ob], header_struct_name=hs[1], derived_from="A")]
    for i in range(2):
        ps[i].interrupts = [SVDInterrupt(name="I%d%d" % (i, j), value=iv[i][j]) for j in range(ints[i])]
    pd = expect_ok(sx, process(sx, dev(ps)))
    if pd is None:
        return
    for i in range(2):
        p = by_name(pd.peripherals, "AB"[i])
        if p is None:
            sx.fail("both peripherals exist")
            return
        sx.check(sx.eq([p.name, p.base_address], ["AB"[i], [a, b][i]]), "name and address are the element's own")
        sx.check(sx.eq(p.header_struct_name, hs[i]), "header struct name is the element's own")
        sx.check(sx.eq(len(p.interrupts), ints[i]), "interrupts are the element's own")
        for j in range(ints[i]):
            m = by_name(p.interrupts, "I%d%d" % (i, j))
            sx.check(m is not None and sx.eq(m.value, iv[i][j]), "interrupt keeps its number")
        want = bb if i == 0 or own == 0 else ob
        sx.check(sx.eq(len(p.address_blocks), len(want)), "own address blocks, else those of the base")
        for o, s in want:
            sx.check(sx.Or(*[sx.And(sx.eq(x.offset, o), sx.eq(x.size, s)) for x in p.address_blocks]),
                     "own address blocks, else those of the base")
    sx.reach()


def position(sx, level):
    """a derived field completes a partly stated position with its base's; other elements have their own position"""
    lsb, w = sx.int("lsb", 0, 80), sx.int("w", 1, 70)
    base = fld("A", lsb, w, access=AccessType.READ_ONLY)
    style = sx.pick("style", ["offset", "width", "both", "lsb", "msb", "lm", "range", "none"])
    x, y = sx.int("x", 0, 127), sx.int("y", 0, 127)
    f = SVDField(name="B", derived_from="A", access=AccessType.WRITE_ONLY)
    ew = [lsb, lsb + w - 1]
    if style == "offset":
        f.bit_offset, ew = x, [x, x + w - 1]
    elif style == "width":
        sx.assume(y >= 1)
        f.bit_width, ew = y, [lsb, lsb + y - 1]
    elif style == "both":
        sx.assume(y >= 1)
        f.bit_offset, f.bit_width, ew = x, y, [x, x + y - 1]
    elif style == "lsb":
        sx.assume(x <= lsb + w - 1)
        f.lsb, ew = x, [x, lsb + w - 1]
    elif style == "msb":
        sx.assume(y >= lsb)
        f.msb, ew = y, [lsb, y]
    elif style == "lm":
        sx.assume(x <= y)
        f.lsb, f.msb, ew = x, y, [x, y]
    elif style == "range":
        sx.assume(x <= y)
        f.bit_range, ew = "[" + sx.num(y) + ":" + sx.num(x) + "]", [x, y]
    out = process(sx, dev([per("P", 0, [reg("R", 0, [base, f], size=128)])]))
    if style == "none":
        rejected(sx, out, "a field without position is refused")
        sx.reach()
        return
    pd = expect_ok(sx, out)
    if pd is None:
        return
    got = by_name(pd.peripherals[0].registers[0].fields, "B")
    sx.observe("bits", [got.lsb, got.msb])
    sx.check(sx.eq([got.lsb, got.msb], ew), "stated part of the position, the rest from the base")
    sx.reach()


def dims(sx, level, own):
    """a derived array or list takes over count, increment and index text it does not state"""
    n, m = 2, 3
    inc, binc = sx.int("inc", 0x40, 0xFFF), sx.int("binc", 0x40, 0xFFF)
    b, o = sx.int("b", 0, 0xFFFF), sx.int("o", 0x100000, 0x1FFFFF)
    ph = "[%s]" if level == "per" else "%s"
    k = {}
    if "dim" in own:
        k["dim"] = m
    if "inc" in own:
        k["dim_increment"] = inc
    if "same" in own:
        k["dim"] = n
    if "idx" in own:
        k["dim_index"] = "x,y,z" if "dim" in own else "x,y"
    base = dict(dim=n, dim_increment=binc, dim_index="p,q" if level != "per" and ("idx" in own or "dim" not in own) else None)
    if level == "per":
        d = dev([per("A" + ph, b, [reg("R", 0)], **base), per("B" + ph, o, [], ab=None, derived_from="A" + ph, **k)])
    elif level == "clu":
        d = dev([per("P", 0, [clu("A" + ph, b, [reg("R", 0)], **base), clu("B" + ph, o, [], derived_from="A" + ph, **k)])])
    elif level == "reg":
        d = dev([per("P", 0, [reg("A" + ph, b, [fld("F", 0, 1)], **base), reg("B" + ph, o, derived_from="A" + ph, **k)])])
    else:
        binc = sx.int("finc", 2, 4)
        base["dim_increment"] = binc
        if "inc" in own:
            inc = sx.int("oinc", 2, 4)
            k["dim_increment"] = inc
        d = dev([per("P", 0, [reg("R", 0, [fld("A" + ph, 0, 2, **base), fld("B" + ph, 16, derived_from="A" + ph, **k)], size=64)])])
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    items = pd.peripherals if level == "per" else pd.peripherals[0].registers_clusters
    if level == "fld":
        items = items[0].fields
    cnt = m if "dim" in own else n
    step = inc if "inc" in own else binc
    idx = [str(i) for i in range(cnt)]
    if level != "per":
        if "idx" in own:
            idx = ["x", "y", "z"][:cnt]
        elif "dim" not in own:
            idx = ["p", "q"]
    sx.check(sx.eq(len([x for x in items if x.name.startswith("B")]), cnt), "own count, else that of the base")
    for i in range(cnt):
        x = by_name(items, "B" + idx[i])
        if x is None:
            sx.fail("own index text, else that of the base")
            continue
        if level == "fld":
            sx.check(sx.eq([x.lsb, x.msb], [16 + step * i, 17 + step * i]), "own increment, else that of the base")
        else:
            at = x.base_address
            sx.check(sx.eq(at, o + step * i), "own increment, else that of the base")
            kids = x.fields if level == "reg" else x.registers_clusters
            sx.check(sx.eq(len(kids), 1), "each element has the children of the base")
    sx.reach()


def display(sx, kind):
    """display name of a derived array: own placeholder text, else the base's, with the own index"""
    ph = "[%s]" if kind == "array" else "%s"
    own = sx.opt("own", "Own" + ph)
    d = dev([per("P", 0, [reg("A" + ph, 0, dim=2, dim_increment=4, display_name="Base" + ph),
                          reg("B" + ph, 0x100, dim=2, dim_increment=4, display_name=own, derived_from="A" + ph)])])
    pd = expect_ok(sx, process(sx, d))
    if pd is None:
        return
    for i in range(2):
        r = by_name(pd.peripherals[0].registers, "B" + str(i))
        sx.check(sx.Implies(own is not None, sx.eq(r.display_name, "Own" + str(i))), "own display name of the element")
        sx.check(sx.Implies(own is None, sx.eq(r.display_name, "Base" + str(i))),
                 "inherited display name carries the index of the element")
    sx.reach()


def enumeration(sx):
    """a derived enumeration is a copy of its base"""
    v = [sx.int("v0", 0, 7), sx.int("v1", 0, 7)]
    sx.assume(sx.Not(sx.eq(v[0], v[1])))
    us = sx.opt("us", sx.choice("us", list(EnumUsageType)))
    hd = sx.opt("hd", sx.text("hd", 2, 2, "abc"))
    dsc = sx.opt("dsc", sx.text("dsc", 1, 1, "abc"))
    where = sx.pick("where", ["field", "register", "peripheral", "chain"])
    ec = evc([ev("a", sx.num(v[0]), description=dsc), ev("b", sx.num(v[1]))], name="E", usage=us, header_enum_name=hd)
    if where == "field":
        rs = [reg("R", 0, [fld("F", 0, 3, [ec]), fld("G", 4, 3, [SVDEnumeratedValueContainer(enumerated_values=[], derived_from="P.R.F.E")])])]
    elif where == "chain":
        rs = [reg("R", 0, [fld("F", 0, 3, [ec]), fld("H", 8, 3, [SVDEnumeratedValueContainer(name="X", enumerated_values=[], derived_from="P.R.F.E")]),
                           fld("G", 4, 3, [SVDEnumeratedValueContainer(enumerated_values=[], derived_from="P.R.H.X")])])]
    else:
        rs = [reg("R", 0, [fld("F", 0, 3, [ec])]), reg("S", 8, [fld("G", 4, 3, [SVDEnumeratedValueContainer(enumerated_values=[], derived_from="P.R.F.E")])])]
    ps = [per("P", 0, rs)]
    if where == "peripheral":
        ps = [per("P", 0, rs[:1]), per("Q", 0x1000, rs[1:])]
    pd = expect_ok(sx, process(sx, dev(ps)))
    if pd is None:
        return
    fs = [f for p in pd.peripherals for r in p.registers for f in r.fields]
    f, g = by_name(fs, "F"), by_name(fs, "G")
    sx.check(sx.eq(len(g.enumerated_value_containers), 1), "one enumeration")
    c = g.enumerated_value_containers[0]
    sx.check(sx.eq([c.name, c.header_enum_name], ["E", hd]), "copied enumeration has the names of its base")
    sx.check(sx.eq(c.usage, near(sx, us, EnumUsageType.READ_WRITE)), "copied enumeration has the usage of its base")
    sx.check(sx.eq(len(c.enumerated_values), 2), "copied enumeration has the values of its base")
    for n, x, ds in (("a", v[0], dsc), ("b", v[1], None)):
        e = by_name(c.enumerated_values, n)
        sx.check(sx.eq([e.value, e.description], [x, ds]), "copied value")
    same_tree(sx, flat(f.enumerated_value_containers[0]), flat(c), "copied enumeration equals its base")
    sx.reach()


# ---------------------------------------------------------------- children (C13)

def _content(sx, tag, place):
    """builders of fresh children with symbolic values; place separates the clusters of different contents"""
    v = {k: sx.int(tag + "." + k, 0, hi) for k, hi in (("ro", 0xFF), ("co", 0xFF), ("cr", 0xFF), ("rv", TOP), ("bit", 7))}
    v["en"] = 2 if tag == "o" else sx.int("b.en", 0, 3)
    if tag == "o":
        v.update(bit=3, rv=7, cr=0)
        sz = ac = ds = None
    else:
        sz, ac, ds = _optional(sx, tag)

    def field(n="F"):
        return fld(tag + n, v["bit"], 2, [evc([ev("on", sx.num(v["en"])), ev("rest", None, is_default=True)])], access=ac, description=ds)

    def register(n="R", off=None):
        return reg(tag + n, v["ro"] if off is None else off, [field()], size=sz, reset_value=v["rv"], description=ds)

    def cluster(n="C"):
        return clu(tag + n, place + v["co"], [reg(tag + "I", v["cr"], [field("H")], access=ac)], description=ds)

    return field, register, cluster


def _optional(sx, tag):
    sz = sx.opt(tag + ".sz", sx.choice(tag + ".sz", [8, 16, 32]))
    ac = sx.opt(tag + ".ac", sx.choice(tag + ".ac", ACC))
    ds = sx.opt(tag + ".ds", sx.text(tag + ".ds", 1, 1, "abc"))
    return sz, ac, ds


def children(sx, level, own):
    """a derived container equals the same container written out, the base is the same with and without it"""
    bf, br, bc = _content(sx, "b", 0x200)
    of, orr, oc = _content(sx, "o", 0x800)
    at, bt = sx.int("at", 0, 0xFFFF), sx.int("bt", 0, 0xFFFF)
    acc = sx.opt("acc", sx.choice("acc", ACC))

    def build(how):
        # how: "alone" = base only, "derived", "written"
        if level == "per":
            mine = [orr("R", 0x400), oc()] if own else []
            ps = [per("A", 0x10000 + at, [br(), bc()], access=acc)]
            if how == "derived":
                ps.append(per("B", 0x30000 + bt, mine, ab=None, derived_from="A"))
            elif how == "written":
                ps.append(per("B", 0x30000 + bt, mine + [br(), bc()], access=acc))
            return dev(ps)
        if level == "clu":
            mine = [orr("R", 0x400), oc()] if own else []
            cs = [clu("A", at, [br(), bc()], access=acc)]
            if how == "derived":
                cs.append(clu("B", 0x30000 + bt, mine, derived_from="A"))
            elif how == "written":
                cs.append(clu("B", 0x30000 + bt, mine + [br(), bc()], access=acc))
            return dev([per("P", 0, cs, ab=0x100000)])
        mine = [fld("OWN", 16, 4)] if own else []
        rs = [reg("A", at, [bf()], access=acc)]
        if how == "derived":
            rs.append(reg("B", 0x30000 + bt, mine, derived_from="A"))
        elif how == "written":
            rs.append(reg("B", 0x30000 + bt, mine + [bf()], access=acc))
        return dev([per("P", 0, rs, ab=0x100000)])

    def pick(pd, name):
        items = pd.peripherals if level == "per" else pd.peripherals[0].registers_clusters
        return by_name(items, name)

    res = {}
    for how in ("alone", "derived", "written"):
        res[how] = expect_ok(sx, process(sx, build(how)))
        if res[how] is None:
            return
    if pick(res["derived"], "B") is None:
        sx.fail("derived container exists")
        return
    ignore = (".size",) if level != "per" else ()
    same_tree(sx, flat(pick(res["alone"], "A")), flat(pick(res["derived"], "A")), "base with and without the derived container", ignore)
    same_tree(sx, flat(pick(res["written"], "B")), flat(pick(res["derived"], "B")), "derived container equals the one written out")
    same_tree(sx, flat(res["written"]), flat(res["derived"]), "device")
    # nothing is shared between base and derived container
    a, b = pick(res["derived"], "A"), pick(res["derived"], "B")
    if level == "reg":
        ids = [id(x) for x in a.fields]
        sx.check(not [x for x in b.fields if id(x) in ids], "no field is shared")
    else:
        ids = [id(x) for x in walk(a.registers_clusters)]
        sx.check(not [x for x in walk(b.registers_clusters) if id(x) in ids], "no register or cluster is shared")
    sx.reach()


def crowd(sx, level, n, deep):
    """a derived container with many children (n of its own base, clusters nested in each other) and a chain behind it"""
    ro, at = sx.int("ro", 0, 3), sx.int("at", 0, 0xFF)
    rv = [sx.int("rv%d" % i, 0, TOP) for i in range(2)]

    def kids():
        out = [reg("K%d" % i, 16 * i + ro, [fld("F%d" % j, 2 * j, 2) for j in range(3)], reset_value=rv[i % 2]) for i in range(n)]
        for i in range(deep):
            h = len(out) * 2 // 3
            out = [clu("C%d" % i, 0x1000 * (i + 1), out[:h])] + out[h:]
        return out

    if level == "per":
        items = [per("A", 0x100000, kids(), ab=0x10000), per("B", 0x200000, [], ab=None, derived_from="A"), per("C", 0x300000 + at, [], ab=None, derived_from="B")]
        d = dev(items)
    elif level == "clu":
        d = dev([per("P", 0, [clu("A", 0x100000, kids()), clu("B", 0x200000, [], derived_from="A"), clu("C", 0x300000 + at, [], derived_from="B")], ab=0x1000000)])
    else:
        fs = [fld("F%d" % j, 2 * j, 2, description="f%d" % j) for j in range(n)]
        d = dev([per("P", 0, [reg("A", 0x100000, fs, size=64), reg("B", 0x200000, derived_from="A"), reg("C", 0x300000 + at, derived_from="B")], ab=0x1000000)])
    pd = expect_ok(sx, process(sx, d))
    if pd is None:
        return
    got = pd.peripherals if level == "per" else pd.peripherals[0].registers_clusters
    sx.check(sx.eq(names(got), ["A", "B", "C"]), "all containers")
    a, base = got[0], 0x100000
    for k in (1, 2):
        b, bb = got[k], 0x100000 * (k + 1) + (at if k == 2 else 0)
        if level == "reg":
            sx.check(sx.eq([[f.name, f.lsb, f.msb, f.description] for f in b.fields], [["F%d" % j, 2 * j, 2 * j + 1, "f%d" % j] for j in range(n)]), "all fields")
            continue
        x, y = walk(a.registers_clusters), walk(b.registers_clusters)
        sx.check(len(y) == len(x) and len(x) == n + deep, "all children of the base")
        for i in range(min(len(x), len(y))):
            sx.check(sx.eq([y[i].name, y[i].address_offset, y[i].base_address - bb, y[i].reset_value], [x[i].name, x[i].address_offset, x[i].base_address - base, x[i].reset_value]),
                     "child placed relative to its own container")
            if isreg(x[i]):
                sx.check(sx.eq(names(y[i].fields), names(x[i].fields)), "fields of a child")
    sx.reach()


def clash(sx, level):
    """a child defined on the derived element and its base is refused, other names are accepted"""
    nm = ["X", "Y", "Z"]
    a, b = sx.choice("a", nm), sx.choice("b", nm)
    kinds = sx.pick("kinds", ["rr", "rc", "cr", "cc"]) if level != "reg" else "rr"

    def child(kind, name, off):
        return reg(name, off) if kind == "r" else clu(name, off, [reg("I", 0)])

    if level == "per":
        d = dev([per("A", 0, [child(kinds[0], a, 0)]), per("B", 0x1000, [child(kinds[1], b, 0x40)], derived_from="A")])
    elif level == "clu":
        d = dev([per("P", 0, [clu("A", 0, [child(kinds[0], a, 0)]), clu("B", 0x100, [child(kinds[1], b, 0x40)], derived_from="A")])])
    else:
        d = dev([per("P", 0, [reg("A", 0, [fld(a, 0, 2)]), reg("B", 8, [fld(b, 4, 2)], derived_from="A")])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    same = sx.eq(a, b)
    sx.check(sx.Implies(same, out.isa("ProcessException")), "a child on both is refused")
    sx.check(sx.Implies(sx.Not(same), out.ok), "different children are accepted")
    sx.reach()


def chained(sx, level):
    """chain of three with a child on each: every container has the children of all its bases"""
    ro = [sx.int("r%d" % i, 0, 0xF) for i in range(3)]
    order = sx.pick("order", [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
    nm = "ABC"

    def kid(i):
        return fld("K" + nm[i], 8 * i, 4, description="k%d" % i) if level == "reg" else reg("K" + nm[i], 0x100 * i + ro[i])

    items = []
    for i in range(3):
        df = nm[i - 1] if i else None
        if level == "per":
            items.append(per(nm[i], 0x1000 * i, [kid(i)], ab=0x1000 if i == 0 else None, derived_from=df))
        elif level == "clu":
            items.append(clu(nm[i], 0x1000 * i, [kid(i)], derived_from=df))
        else:
            items.append(reg(nm[i], 0x1000 * i + ro[i], [kid(i)], derived_from=df))
    items = [items[i] for i in order]
    d = dev(items) if level == "per" else dev([per("P", 0, items, ab=0x10000)])
    pd = expect_ok(sx, process(sx, d))
    if pd is None:
        return
    got = pd.peripherals if level == "per" else pd.peripherals[0].registers_clusters
    sx.check(sx.eq(names(got), list(nm)), "all elements of the chain")
    for i in range(3):
        x = by_name(got, nm[i])
        kids = x.fields if level == "reg" else x.registers_clusters
        sx.check(sx.eq(sorted(names(kids)), ["K" + nm[j] for j in range(i + 1)]), "children of all bases")
        if level != "reg":
            for j in range(i + 1):
                k = by_name(kids, "K" + nm[j])
                sx.check(sx.eq(k.base_address, 0x1000 * i + 0x100 * j + ro[j]), "child relative to its own container")
    sx.reach()


def pending(sx, level, n, lo=0, hi=99):
    """a container with references inside it is derived from: the copies have those elements too, resolved"""
    paths = ["A.R", "A.C.K", "Q.X"] if level == "per" else ["P.A.R", "P.A.C.K", "Q.X"]
    paths = paths + ["K"]
    first = sx.pick("p0", paths[lo:hi])
    ref = [first] + [sx.pick("p%d" % i, paths) for i in range(1, n)]
    place = sx.pick("place", ["inner", "both", "outer"])
    order = sx.pick("order", [[0, 1, 2], [2, 1, 0], [1, 0, 2]])
    v = [sx.int("v%d" % i, 0, TOP) for i in range(3)]

    def kids(used):
        own = [reg("U%d" % i, 0x10 + 4 * i, derived_from=p) for i, p in enumerate(used)]
        cut = {"inner": 0, "outer": len(own), "both": 1}[place]
        outer, inner = own[:cut], own[cut:]
        for x in outer:
            if x.derived_from == "K":
                x.derived_from = "R"
        return [reg("R", 0, [fld("FR", 0, 2)], reset_value=v[0]),
                clu("C", 0x100, [reg("K", 0, [fld("FK", 0, 2)], reset_value=v[1])] + inner)] + outer

    def build(how):
        q = per("Q", 0x40000, [reg("X", 0, [fld("FX", 0, 2)], reset_value=v[2])])
        if level == "per":
            a, b, c = per("A", 0x10000, kids(ref)), per("B", 0x20000, [], ab=None, derived_from="A"), per("E", 0x30000, [], ab=None, derived_from="B")
            if how == "written":
                b, c = per("B", 0x20000, kids(ref)), per("E", 0x30000, kids(ref))
            x = [a, b, c]
            return dev([q] + [x[i] for i in order])
        a, b, c = clu("A", 0x1000, kids(ref)), clu("B", 0x2000, [], derived_from="A"), clu("E", 0x3000, [], derived_from="B")
        if how == "written":
            b, c = clu("B", 0x2000, kids(ref)), clu("E", 0x3000, kids(ref))
        x = [a, b, c]
        return dev([q, per("P", 0, [x[i] for i in order], ab=0x10000)])

    a = expect_ok(sx, process(sx, build("derived")))
    b = expect_ok(sx, process(sx, build("written")))
    if a is not None and b is not None:
        same_tree(sx, flat(b), flat(a), "derived containers equal those written out")
        sx.check(len([r for p in a.peripherals for r in walk(p.registers_clusters) if isreg(r)]) == 3 * (n + 2) + 1, "every container has every register")
    sx.reach()


def namesakes(sx, level):
    """an array whose elements are named like elements inside it, or like those of the array that derives from it"""
    inner = sx.pick("inner", ["A0", "A1", "A[%s]", "A", "B1"])
    deep = sx.pick("deep", ["A0", "A1", "X"])
    v = [sx.int("v%d" % i, 0, TOP) for i in range(3)]
    inc = sx.int("inc", 0x100, 0x1000)
    derived = sx.pick("derived", [None, "A[%s]", "A1"])

    def kids():
        r = reg(inner, 0, reset_value=v[0], **(dict(dim=2, dim_increment=4) if "%" in inner else {}))
        return [r, clu("K", 0x20, [reg(deep, 0, reset_value=v[1])]), reg("Z", 0x40, reset_value=v[2])]

    pre = "" if level == "per" else "P."
    nd = "B[%s]" if derived == "A[%s]" else "B"
    if level == "per":
        x = [per("A[%s]", 0x10000, kids(), dim=2, dim_increment=inc)]
        x += [per(nd, 0x20000, [], ab=None, derived_from=derived)] if derived else []
        d = dev(x)
    else:
        x = [clu("A[%s]", 0, kids(), dim=2, dim_increment=inc)]
        x += [clu(nd, 0x10000, [], derived_from=pre + derived)] if derived else []
        d = dev([per("P", 0x10000, x, ab=0x100000)])
    pd = expect_ok(sx, process(sx, d))
    if pd is None:
        return
    tops = pd.peripherals if level == "per" else pd.peripherals[0].registers_clusters
    want = {"A0": 0, "A1": inc}
    far = 0x10000
    if derived == "A[%s]":
        want.update({"B0": far, "B1": far + inc})
    elif derived:
        want["B"] = far
    sx.check(sx.eq(sorted(names(tops)), sorted(want)), "all elements of the arrays")
    for t in tops:
        at = want.get(t.name)
        if at is None:
            sx.fail("an element of the arrays")
            continue
        at = at + 0x10000
        rs = [(n, at + 4 * i, v[0]) for i, n in enumerate(["A0", "A1"] if "%" in inner else [inner])] + [("Z", at + 0x40, v[2])]
        own = [r for r in t.registers_clusters if r.name != "K"]
        sx.check(sx.eq([(r.name, r.base_address, r.reset_value) for r in own], rs), "each element has all registers")
        k = by_name(t.registers_clusters, "K")
        sx.check(k is not None and sx.eq([(r.name, r.base_address, r.reset_value) for r in k.registers_clusters], [(deep, at + 0x20, v[1])]),
                 "each element has the nested cluster")
    sx.reach()


def pending_arrays(sx, level, what, more=0):
    """containers that are arrays or hold arrays, with references inside them, are derived from: the copies equal those written out"""
    order = sx.pick("order", [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]][:4 if not more else 2])
    back = sx.pick("back", [False, True]) if not more else False
    v = [sx.int("v%d" % i, 0, TOP) for i in range(2)]
    pre = "" if level == "per" else "P."
    ref = sx.pick("ref", ["sibling", "element", "template", "far", "next"] + (["nexttemplate"] if what == "inner" else []))
    base = sx.pick("base", ["element", "template"] if what == "container" else ["element"])
    nm, el = ("A[%s]", "A1") if what == "container" else ("A", "A")

    def kids():
        ra = what == "inner"
        path = {"sibling": "R1" if ra else "R", "element": pre + el + (".R1" if ra else ".R"), "template": pre + nm + (".R%s" if ra else ".R"),
                "far": "Q.X", "next": pre + ("B0" if base == "template" else "B") + (".R1" if ra else ".R"),
                "nexttemplate": pre + "B.R%s"}[ref]
        u = reg("U", 0x40, derived_from=path)
        if what == "user" or ref in ("template", "nexttemplate") and ra:
            u = reg("U%s", 0x40, derived_from=path, dim=2, dim_increment=8)
        r = reg("R%s", 0, [fld("F", 0, 2)], reset_value=v[0], dim=2, dim_increment=4) if ra else reg("R", 0, [fld("F", 0, 2)], reset_value=v[0])
        out = [r, u, clu("C", 0x80, [reg("W", 0, derived_from=path if ref != "sibling" and not (ref in ("template", "nexttemplate") and ra) else "Q.X")])]
        out += [reg("M%d" % i, 0x100 + 4 * i) for i in range(more)]
        return out[::-1] if back else out

    def build(how):
        q = per("Q", 0x90000, [reg("X", 0, [fld("FX", 0, 2)], reset_value=v[1])])
        k = dict(dim=2, dim_increment=0x1000) if what == "container" else {}
        d = dict(derived_from=nm if base == "template" else el) if how == "derived" else {}
        bk = {}
        if base == "template":
            bk = dict(dim=2, dim_increment=0x1000)
        bn = "B[%s]" if base == "template" else "B"
        inner = kids() if how == "written" else []
        if level == "per":
            x = [per(nm, 0x10000, kids(), **k), per(bn, 0x20000, inner, ab=0x1000 if how == "written" else None, **d, **(bk if how == "written" else {})), q]
            return dev([x[i] for i in order])
        x = [clu(nm, 0x10000, kids(), **k), clu(bn, 0x20000, inner, **d, **(bk if how == "written" else {})), clu("Z", 0x50000, [reg("ZR", 0)])]
        return dev([per("P", 0, [x[i] for i in order], ab=0x100000), q])

    a, b = process(sx, build("derived")), process(sx, build("written"))
    sx.observe("outcome", [a.kind, b.kind])
    a, b = expect_ok(sx, a), expect_ok(sx, b)
    if a is not None and b is not None:
        same_tree(sx, flat(b), flat(a), "derived containers equal those written out")
    sx.reach()
