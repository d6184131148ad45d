"""C35: processed elements carry what the description states.  C05: entry points."""
import os
import tempfile

from props.common import *
from svdsuite.map import PeripheralRegisterMap
from svdsuite.parse import Parser
from svdsuite.serialize import Serializer

TOP = 2**64 - 1
# attribute -> how to make a value; the documented default of an attribute that is not stated is None unless given here
DEFAULTS = {"modified_write_values": ModifiedWriteValuesType.MODIFY}
DECOYS = {"version": "v", "description": "d", "group_name": "g", "prepend_to_name": "p", "append_to_name": "a", "header_struct_name": "h",
          "disable_condition": "c", "display_name": "n", "data_type": DataTypeType.UINT32_T,
          "modified_write_values": ModifiedWriteValuesType.ZERO_TO_TOGGLE, "read_action": ReadActionType.MODIFY_EXTERNAL}
LEVELS = {
    "dev": ["vendor", "vendor_id", "series", "license_text", "header_system_filename", "header_definitions_prefix"],
    "per": ["version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name", "header_struct_name",
            "disable_condition"],
    "clu": ["description", "alternate_cluster", "header_struct_name"],
    "reg": ["display_name", "description", "alternate_register", "data_type", "modified_write_values", "write_constraint", "read_action"],
    "reg2": ["alternate_group", "description"],
    "fld": ["description", "modified_write_values", "write_constraint", "read_action"],
}


def _value(sx, attr, name):
    if attr == "data_type":
        return sx.choice(name, list(DataTypeType))
    if attr == "modified_write_values":
        return sx.choice(name, list(ModifiedWriteValuesType))
    if attr == "read_action":
        return sx.choice(name, list(ReadActionType))
    if attr == "display_name":
        return sx.ite(sx.bool(name + ".special"), sx.choice(name + ".text", [x for x in SPECIAL if "%" not in x]), sx.text(name, 2, 2, "aZ_0 -"))
    if attr in ("alternate_peripheral", "alternate_cluster", "alternate_register", "alternate_group"):
        return sx.text(name, 2, 2, "aZ_0 -")
    return anytext(sx, name)


def _constraint(sx, name):
    how = sx.pick(name, ["none", "flags", "range", "all"])
    if how == "none":
        return None, None
    a, b = sx.opt(name + "w", sx.bool(name + "w")), sx.opt(name + "e", sx.bool(name + "e"))
    r = (sx.int(name + "lo", 0, TOP), sx.int(name + "hi", 0, TOP))
    k = {"flags": dict(write_as_read=a, use_enumerated_values=b), "range": dict(range_=r),
         "all": dict(write_as_read=a, use_enumerated_values=b, range_=r)}[how]
    return SVDWriteConstraint(**k), [k.get("write_as_read"), k.get("use_enumerated_values"), list(r) if "range_" in k else None]


def _parts(w):
    return None if w is None else [w.write_as_read, w.use_enumerated_values, None if w.range_ is None else list(w.range_)]


def _same(sx, got, want, what):
    if got is None or want is None:
        sx.check(got is None and want is None, what)
        return
    for i in range(3):
        sx.check(sx.eq(got[i], want[i]), what)


def level(sx, level, place):
    """every optional attribute of one element, alone, inside clusters or as an array"""
    attrs = LEVELS[level]
    stated, constraint = {}, None
    for a in attrs:
        if a == "write_constraint":
            stated[a], constraint = _constraint(sx, "wc")
        else:
            stated[a] = sx.opt(a, _value(sx, a, a))
    arr = dict(dim=2, dim_increment=0x100) if place == "array" else {}
    nm = "X%s" if level == "fld" else "X[%s]"
    nm = nm if arr else "X"
    if arr and level in ("reg", "reg2") and "display_name" in stated:
        stated["display_name"] = None
    kd, kp, kc, kr, kf = {}, {}, {}, {}, {}
    # the other levels state attributes of their own, which are nobody else's
    for other, k in (("dev", kd), ("per", kp), ("clu", kc), ("reg", kr), ("fld", kf)):
        for a in LEVELS[other]:
            if a in DECOYS and not (arr and a == "display_name"):
                k[a] = DECOYS[a] if a in ("data_type", "modified_write_values", "read_action") else other + DECOYS[a]
    k = {"dev": kd, "per": kp, "clu": kc, "reg": kr, "reg2": kr, "fld": kf}[level]
    k.update(stated)
    f = fld(nm if level == "fld" else "F", 0, 4, **kf, **({**arr, "dim_increment": 8} if level == "fld" else {}))
    r = reg(nm if level[:3] == "reg" else "R", 0, [f], **kr, **(arr if level[:3] == "reg" else {}))
    inner = r
    if level == "clu":
        inner = clu(nm, 0, [r], **kc, **arr)
    if place == "nested":
        own = {a: "M" + DECOYS[a] for a in LEVELS["clu"] if a in DECOYS}
        inner = clu("M", 0x20, [clu("N", 0x40, [inner], **own)], **own)
    p = per(nm if level == "per" else "P", 0x1000, [inner], **kp, **(arr if level == "per" else {}))
    d = dev([p], **kd)
    out = process(sx, d)
    pd = expect_ok(sx, out)
    if pd is None:
        return
    if level == "dev":
        got = [pd]
    elif level == "per":
        got = pd.peripherals
    elif level == "clu":
        got = [x for q in pd.peripherals for x in walk(q.registers_clusters) if x.name[0] == "X"]
    elif level == "fld":
        got = [x for q in pd.peripherals for y in q.registers for x in y.fields]
    else:
        got = [y for q in pd.peripherals for y in q.registers]
    sx.check(len(got) == (2 if arr and level != "dev" else 1), "the element is there")
    for g in got:
        for a in attrs:
            if a == "write_constraint":
                _same(sx, _parts(g.write_constraint), constraint, "stated write constraint")
            else:
                sx.check(sx.eq(getattr(g, a), near(sx, stated[a], DEFAULTS.get(a))), "stated " + a)
        if level[:3] == "reg":
            sx.check(sx.eq([g.fields[0].description, g.fields[0].modified_write_values, g.fields[0].read_action],
                           ["fldd", DECOYS["modified_write_values"], DECOYS["read_action"]]), "a field carries its own attributes")
        if level == "reg" and place != "array":
            _same(sx, _parts(g.fields[0].write_constraint), constraint, "a field without write constraint takes the one of its register")
    sx.reach()


def numbers(sx):
    """plain numbers and texts of device, address blocks, interrupts, enumerations"""
    n = dict(name=anytext(sx, "dn"), version=anytext(sx, "dv"), description=anytext(sx, "dd"),
             address_unit_bits=sx.int("aub", 0, 64), width=sx.int("w", 0, 64))
    b = [dict(offset=0x1000 * i + sx.int("o%d" % i, 0, 0x7FF), size=sx.int("s%d" % i, 1, 0x7FF), usage=sx.choice("u%d" % i, list(EnumeratedTokenType)),
              protection=sx.opt("p%d" % i, sx.choice("p%d" % i, PROT))) for i in range(2)]
    it = [dict(name=anytext(sx, "in%d" % i), value=100 * i + sx.int("iv%d" % i, 0, 99), description=sx.opt("id%d" % i, anytext(sx, "id%d" % i))) for i in range(2)]
    v = sx.int("v", 0, 6)
    e = dict(name=sx.text("en", 2, 2, "Ab"), description=sx.opt("ed", anytext(sx, "ed")))
    c = dict(name=sx.opt("cn", anytext(sx, "cn")), header_enum_name=sx.opt("ch", anytext(sx, "ch")))
    u = sx.opt("cu", sx.choice("cu", list(EnumUsageType)))
    a = sx.choice("fa", ACC)
    p = per("P", sx.int("base", 0, TOP), [reg("R", 0, [fld("F", 0, 3, [evc([ev(e["name"], sx.num(v), description=e["description"]), ev("Last", "7")], usage=u, **c)], access=a)])],
            ab=[SVDAddressBlock(**x) for x in b])
    p.interrupts = [SVDInterrupt(**x) for x in it]
    out = process(sx, dev([p], **n))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    for k in n:
        sx.check(sx.eq(getattr(pd, k), n[k]), "device " + k)
    q = pd.peripherals[0]
    sx.check(len(q.address_blocks) == 2 and len(q.interrupts) == 2, "all blocks and interrupts")
    for i in range(2):
        x = q.address_blocks[i]
        sx.check(sx.eq([x.offset, x.size], [b[i]["offset"], b[i]["size"]]), "address block")
        sx.check(sx.eq(x.usage, b[i]["usage"]), "usage of an address block")
        sx.check(sx.eq(x.protection, near(sx, b[i]["protection"], ProtectionStringType.ANY)), "protection of an address block, by default any")
        for k in it[i]:
            sx.check(sx.eq(getattr(q.interrupts[i], k), it[i][k]), "interrupt " + k)
    f = q.registers[0].fields[0]
    sx.check(sx.eq(f.access, a), "field access")
    x = f.enumerated_value_containers[0]
    sx.check(sx.eq([x.name, x.header_enum_name], [c["name"], c["header_enum_name"]]), "names of an enumeration")
    sx.check(sx.eq(x.usage, near(sx, u, EnumUsageType.READ_WRITE)), "usage of an enumeration, by default read-write")
    y = x.enumerated_values[0]
    sx.check(sx.eq([y.name, y.description, y.value], [e["name"], e["description"], v]), "an enumerated value")
    sx.reach()


def lists(sx, n):
    """every interrupt and address block is kept with what it states, equal ones too; enumerations of both directions as well"""
    it = [dict(name=sx.choice("in%d" % i, ["A", "B"]), value=sx.int("iv%d" % i, 0, TOP if i else 3), description="i%d" % i) for i in range(n)]
    p = per("P", 0, [reg("R", 0)], ab=[SVDAddressBlock(offset=0x1000 * i, size=0x1000, usage=EnumeratedTokenType.REGISTERS) for i in range(n)])
    p.interrupts = [SVDInterrupt(**x) for x in it]
    q = per("Q", 0x100000, [reg("R", 0)])
    q.interrupts = [SVDInterrupt(**x) for x in it[:1]]
    pd = expect_ok(sx, process(sx, dev([p, q])))
    if pd is None:
        return
    got = by_name(pd.peripherals, "P")
    sx.check(len(got.interrupts) == n and len(got.address_blocks) == n, "all blocks and interrupts")
    for i in range(n):
        m = [sx.eq([x.name, x.value, x.description], [it[i]["name"], it[i]["value"], it[i]["description"]]) for x in got.interrupts]
        sx.check(sx.Or(*m), "every interrupt with its name, number and description")
        sx.check(sx.eq([got.address_blocks[i].offset, got.address_blocks[i].size], [0x1000 * i, 0x1000]), "every block")
    other = by_name(pd.peripherals, "Q").interrupts
    sx.check(len(other) == 1 and sx.eq([other[0].name, other[0].value], [it[0]["name"], it[0]["value"]]), "interrupts of each peripheral")
    sx.reach()


# -------------------------------------------------------------------------------------------------- entry points (C05)
def entries(sx, how, what):
    """a document given to Process or the register map in any form"""
    v = [16 * sx.int("v%d" % i, 16, 255) for i in range(3)]
    t = sx.text("t", 1, 1, "aZ")
    d = dev([per("P", v[0], [reg("R", v[1], [fld("F", 0, 4)], description="d" + t, reset_value=v[2]), reg("S", 0x10000, derived_from="P.R")])])
    s = Serializer.device_to_svd_str(d)
    path = None
    cls = Process if what == "process" else PeripheralRegisterMap
    try:
        if how == "file":
            fd, path = tempfile.mkstemp(suffix=".svd")
            os.close(fd)
            Serializer.device_to_svd_file(path, d)
            out = sx.run(lambda: cls.from_svd_file(path))
        elif how == "str":
            out = sx.run(lambda: cls.from_xml_str(s))
        else:
            out = sx.run(lambda: cls.from_xml_content(s.encode()))
    finally:
        if path is not None:
            os.unlink(path)
    got = expect_ok(sx, out)
    a = expect_ok(sx, sx.run(lambda: Process(Parser.from_xml_str(s).get_parsed_device(), None).get_processed_device()))
    if got is not None and a is not None:
        if what == "process":
            same_tree(sx, flat(got.get_processed_device()), flat(a), "same device")
        else:
            m = PeripheralRegisterMap(a).peripheral_map
            same_tree(sx, flat(got.peripheral_map[0]), flat(m[0]), "same register map")
    sx.reach()
