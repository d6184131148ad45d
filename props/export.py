"""Export of processed devices, and the register map."""
import lxml.etree as ET

from oracle import xsd
from props import rich
from props.common import *
from props.roundtrip import _leaf_ok
from svdsuite.map import PeripheralRegisterMap
from svdsuite.parse import Parser
from svdsuite.serialize import Serializer


def _exported(sx, d):
    out = sx.run(lambda: Process(d, None))
    p = expect_ok(sx, out)
    if p is None:
        return None, None
    out = sx.run(lambda: p.convert_processed_device_to_svd_device())
    done = out.ok and out.value is not None
    sx.check(done, "a processed device is exported")
    return p.get_processed_device(), out.value if done else None


def _parents(sx, e, parent):
    if hasattr(e, "parent") and parent is not None:
        sx.check(e.parent is parent, "every exported element knows its parent")
    for k in list(e.__dict__):
        if k in SKIP:
            continue
        v = e.__dict__[k]
        for x in v if isinstance(v, list) else [v]:
            if hasattr(x, "__dataclass_fields__") and not isinstance(x, SVDWriteConstraint):
                _parents(sx, x, e)


def model(sx, shape):
    """export and process again"""
    pd, e = _exported(sx, rich.build(sx, shape))
    if e is None:
        return
    _parents(sx, e, None)
    again = expect_ok(sx, process(sx, e), "an exported device is processed")
    if again is not None:
        same_tree(sx, flat(again), flat(pd), "export and process")
    sx.reach()


def alike(sx, what):
    """texts that may be equal to each other, and write constraints with any combination of parts"""
    def t(n, opt=True):
        s = sx.text(n, 1, 1, "AB")
        return sx.opt(n, s) if opt else s

    def wc(n):
        w = SVDWriteConstraint(write_as_read=sx.opt(n + "w", sx.bool(n + "w")), use_enumerated_values=sx.opt(n + "u", sx.bool(n + "u")),
                               range_=sx.opt(n + "r", (sx.int(n + "lo", 0, 2**64 - 1), sx.int(n + "hi", 0, 2**64 - 1))))
        return w

    k = {w: {} for w in ("per", "clu", "reg", "fld")}
    if what == "per":
        k["per"] = dict(version=t("pv"), description=t("pd"), group_name=t("pg"), prepend_to_name=t("pp"), append_to_name=t("pa"),
                        header_struct_name=t("ph"), disable_condition=t("pc"), alternate_peripheral=t("pl"))
    elif what == "clu":
        k["clu"] = dict(description=t("cd"), header_struct_name=t("ch"), alternate_cluster=t("cl"))
    elif what == "reg":
        k["reg"] = dict(display_name=t("rn"), description=t("rd"), alternate_register=t("rl"), write_constraint=wc("r"))
    elif what == "group":
        k["reg"] = dict(display_name=t("rn"), alternate_group=t("rg"))
    else:
        k["fld"] = dict(description=t("fd"), write_constraint=wc("f"))
    e = [evc([ev(t("v0", False), "1", description=t("vd")), ev("C", "2")], name=t("en"), header_enum_name=t("eh"))] if what == "enum" else []
    d = dev([per(t("p", False), 0x1000, [clu(t("c", False), 0x100, [reg("R", 0)], **k["clu"]),
                                         reg(t("r", False) if what in ("reg", "group") else "R", 0, [fld(t("f", False), 0, 4, e, **k["fld"])], **k["reg"])], **k["per"])])
    if what in ("reg", "group"):
        d.peripherals[0].registers_clusters[0].name = "C"
    pd, x = _exported(sx, d)
    if x is None:
        return
    again = expect_ok(sx, process(sx, x), "an exported device is processed")
    if again is not None:
        same_tree(sx, flat(again), flat(pd), "export and process")
    sx.reach()


def xml(sx, shape, how, optional):
    """export, write, read, process"""
    pd, e = _exported(sx, rich.build(sx, shape, optional))
    if e is None:
        return

    def go():
        if how == "content":
            m = Parser.from_xml_content(Serializer.device_to_svd_content(e)).get_parsed_device()
        else:
            m = Parser.from_xml_str(Serializer.device_to_svd_str(e, pretty_print=True)).get_parsed_device()
        return Process(m, None).get_processed_device()

    out = sx.run(go)
    again = expect_ok(sx, out, "an exported device is written, read and processed")
    if again is not None:
        same_tree(sx, flat(again), flat(pd), "export, write, read and process")
    sx.reach()


def _depth_first(base, items, out):
    for x in items:
        if isreg(x):
            out.append((base + x.address_offset, x))
        else:
            _depth_first(base + x.address_offset, x.registers_clusters, out)
    return out


def regmap(sx, shape):
    """the register map of a rich device"""
    out = process(sx, rich.build(sx, shape))
    pd = expect_ok(sx, out)
    if pd is None:
        return
    out = sx.run(lambda: PeripheralRegisterMap(pd).peripheral_map)
    sx.check(out.ok, "a register map is built")
    if not out.ok:
        return
    m = out.value
    sx.check(sx.eq(len(m), len(pd.peripherals)), "every peripheral once")
    for i in range(1, len(m)):
        sx.check(m[i - 1].address <= m[i].address, "peripherals by address")
    for p in pd.peripherals:
        mp = by_name(m, p.name)
        if mp is None:
            sx.fail("every peripheral is listed")
            continue
        sx.check(mp.processed is p, "a listed peripheral refers to its processed peripheral")
        sx.check(sx.eq([mp.address, mp.description], [p.base_address, p.description]), "peripheral at its address")
        begin = p.base_address + sx.min([b.offset for b in p.address_blocks])
        end = p.base_address + sx.max([b.offset + b.size for b in p.address_blocks]) - 1
        sx.check(sx.eq(list(mp.allocated_range), [begin, end]), "range from the first to the last allocated byte")
        want = _depth_first(p.base_address, p.registers_clusters, [])
        sx.check(sx.eq(len(mp.registers), len(want)), "every register once")
        # by address; where containers interleave, container by container is an order by address as well
        same = len(mp.registers) == len(want) and all(x.processed is r for x, (a, r) in zip(mp.registers, want))
        rising = sx.And(*[mp.registers[i - 1].address <= mp.registers[i].address for i in range(1, len(mp.registers))])
        sx.check(True if same else rising, "registers in the order of addresses")
        for a, r in want:
            hit = [x for x in mp.registers if x.processed is r]
            sx.check(len(hit) == 1, "every register once")
            if not hit:
                continue
            x = hit[0]
            sx.check(sx.eq(x.address, a), "register at its absolute address")
            sx.check(sx.eq(x.address, r.base_address), "register at its absolute address")
            for k in ("name", "display_name", "description", "size", "access", "protection", "reset_value", "reset_mask"):
                sx.check(sx.eq(getattr(x, k), getattr(r, k)), "listed register carries " + k)
            sx.check(len(x.fields) == len(r.fields), "listed register carries its fields")
    sx.reach()


def leftout(sx):
    """a cluster whose widest register is left out"""
    w = sx.choice("w", [8, 16, 32, 64])
    c = clu("C", 0x10, [reg("R", 0, size=8), reg("reserved", 8, size=w)])
    pd, e = _exported(sx, dev([per("P", 0, [reg("A", 0, size=64), c])]))
    if e is None:
        return
    again = expect_ok(sx, process(sx, e), "an exported device is processed")
    if again is not None:
        x, y = by_name(again.peripherals[0].registers_clusters, "C"), by_name(pd.peripherals[0].registers_clusters, "C")
        sx.check(sx.eq(x.size, y.size), "effective size of a cluster with a wider register left out")
    sx.reach()


def _conforms(sx, e, level, protections):
    order, leaves = xsd.levels()[level]
    tags = [c.tag for c in e]
    ranks = [xsd.position(level, t) for t in tags]
    sx.check(None not in ranks, "only elements of the schema in " + level)
    if None in ranks:
        return
    sx.check(ranks == sorted(ranks), "children of " + level + " in schema order")
    if level not in ("peripherals", "registers", "cluster", "fields", "field", "enumeratedValues", "peripheral", "interrupts",
                     "sauRegionsConfig", "dimArrayIndex"):
        sx.check(len(ranks) == len(set(ranks)), "children of " + level + " only once")
    for c in e:
        if c.tag in leaves:
            if c.tag == "protection":
                protections.append(c.text)
            elif leaves[c.tag][0] == "enum" or leaves[c.tag][1] in ("boolean", "[cn]"):
                # numbers: roundtrip.numbers
                sx.check(_leaf_ok(sx, level, c.tag, c.text), "format of " + level + "/" + c.tag)
        else:
            _conforms(sx, c, c.tag, protections)
    for a in e.attrib:
        if not a.startswith("{"):
            sx.check("@" + a in leaves, "only attributes of the schema in " + level)
            if a == "protectionWhenDisabled":
                protections.append(e.get(a))
            elif "@" + a in leaves and a not in ("schemaVersion", "derivedFrom", "name"):
                sx.check(_leaf_ok(sx, level, "@" + a, e.get(a)), "format of " + level + "@" + a)


def _document(sx, e):
    out = sx.run(lambda: ET.fromstring(Serializer.device_to_svd_content(e)))
    x = expect_ok(sx, out, "an exported device is written")
    ps = []
    if x is not None:
        _conforms(sx, x, "device", ps)
    return ps


def document(sx, shape, optional):
    """an exported device is written as a document in the order and formats of the schema"""
    pd, e = _exported(sx, rich.build(sx, shape, optional))
    if e is None:
        return
    for p in _document(sx, e):
        sx.check(sx.isin(p, ["s", "n", "p", "any"]), "a protection is one of the tokens")
    sx.reach()


def exported(sx):
    """an exported device states protections in the form of the schema"""
    ps = [sx.opt("p%d" % i, sx.choice("p%d" % i, [x for x in PROT if x.name != "ANY"])) for i in range(3)]
    pd, e = _exported(sx, dev([per("P", 0, [reg("R", 0, protection=ps[2])], protection=ps[1])], protection=ps[0]))
    if e is None:
        return
    for p in _document(sx, e):
        sx.check(sx.isin(p, ["s", "n", "p"]), "a written protection is one the schema accepts")
    sx.reach()
