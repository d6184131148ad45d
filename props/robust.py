"""C34: whatever a description says, it is processed or refused with the documented errors."""
import lxml.etree as ET

from props import rich
from props.svdxml import *
from svdsuite.map import PeripheralRegisterMap

BIG = 1 << 70


def documented(sx, out, label="processed, or refused with the documented error"):
    sx.observe("outcome", out.kind)
    sx.check(out.ok or out.isa("ProcessException"), label if sx.symbolic else label + " (got " + out.kind + ")")


def _tree(**k):
    """one element of every kind; k: keyword arguments by kind"""
    g = lambda x: k.get(x, {})
    e = {**dict(name="E", value="1"), **g("val")}
    c = {**dict(enumerated_values=[SVDEnumeratedValue(**e)]), **g("enm")}
    f = {**dict(name="F", bit_offset=0, bit_width=4, enumerated_value_containers=[SVDEnumeratedValueContainer(**c)]), **g("fld")}
    r = {**dict(name="R", address_offset=0, fields=[SVDField(**f)]), **g("reg")}
    r2 = {**dict(name="R", address_offset=4, fields=[]), **g("inn")}
    cl = {**dict(name="C", address_offset=0x10, registers_clusters=[SVDRegister(**r2)]), **g("clu")}
    b = {**dict(offset=0, size=0x1000, usage=EnumeratedTokenType.REGISTERS), **g("blk")}
    i = {**dict(name="I", value=1), **g("int")}
    p = {**dict(name="P", base_address=0, registers_clusters=[SVDRegister(**r), SVDCluster(**cl)],
                address_blocks=[SVDAddressBlock(**b)], interrupts=[SVDInterrupt(**i)]), **g("per")}
    return dev([SVDPeripheral(**p), per("Q", 0x2000, [reg("A", 0)])], **g("dev"))


NUMBERS = {
    "dev": ["size", "reset_value", "reset_mask", "address_unit_bits", "width"],
    "per": ["base_address", "size", "reset_value", "reset_mask"],
    "blk": ["offset", "size"], "int": ["value"],
    "clu": ["address_offset", "size", "reset_value", "reset_mask"],
    "inn": ["address_offset", "size"],
    "reg": ["address_offset", "size", "reset_value", "reset_mask"],
    "fld": ["bit_offset", "bit_width"],
}


def numbers(sx, kinds):
    """any numbers, negative and huge ones included"""
    k = {}
    for kind in kinds:
        k[kind] = {a: sx.int(kind + "." + a, -9 if a == "bit_width" else -BIG, 20 if a == "bit_width" else BIG) for a in NUMBERS[kind]}
        if kind in ("dev", "per", "clu", "reg", "inn"):
            k[kind]["size"] = sx.opt(kind + ".size", k[kind]["size"])
    documented(sx, process(sx, _tree(**k)))
    sx.reach()


def digits(sx, where):
    """numbers of any many digits in texts that are numbers of other kinds"""
    def big(name):
        return sx.pick(name, ["", "0", "9" * 40, "1" * 4300, "1" * 4301, "0" * 5000, "7" * 9000])
    n = sx.int("n", 1, 3)
    k = {}
    if where == "index":
        d = dev([per("P", 0, [reg("R%s", 0, dim=n, dim_increment=4, dim_index=big("a") + sx.pick("sep", ["-", ","]) + big("b"))])])
    elif where == "range":
        d = dev([per("P", 0, [reg("R", 0, [SVDField(name="F", bit_range="[" + big("a") + ":" + big("b") + "]"), fld("G", n, 1)])])])
    else:
        pre = sx.pick("pre", ["", "+", "0x", "#", "0b"])
        # of other notations only those that Python can also write as decimal number
        v = pre + (big("a") if pre in ("", "+") else sx.pick("a", ["", "0", "1" * 40, "1" * 3500, "0" * 9000, "1" * 9000 if pre != "0x" else "f" * 3500]))
        d = dev([per("P", 0, [reg("R", 0, [fld("F", 0, n, [evc([ev("A", v), ev("B", "0")])])])])])
    documented(sx, process(sx, d))
    sx.reach()


def widehex(sx):
    """hexadecimal and binary literals too wide to be written as decimal number"""
    v = sx.pick("v", ["0x" + "1" * 4300, "0x" + "f" * 9000, "#" + "1" * 15000])
    d = dev([per("P", 0, [reg("R", 0, [fld("F", 0, sx.int("n", 1, 3), [evc([ev("A", v), ev("B", "0")])])])])])
    documented(sx, process(sx, d), "a literal beyond 4300 decimal digits is processed, or refused with the documented error")
    sx.reach()


def position(sx, default):
    """a field with any part of any notation, at any numbers, next to another field"""
    n = {a: sx.int(a, -9, 4 if a == "bit_width" and default else 20) for a in ("bit_offset", "bit_width", "lsb", "msb")}
    if default:
        sx.assume(n["msb"] - n["lsb"] <= 3)
    k = {a: sx.opt(a, n[a]) for a in n}
    vals = [ev("A", "1")] + ([ev("D", None, is_default=True)] if default else [])
    f = SVDField(name="F", enumerated_value_containers=[evc(vals)], bit_range=sx.pick("br", [None, "[1:0]", "[0:1]", "[1:", "x"]), **k)
    documented(sx, process(sx, dev([per("P", 0, [reg("R", 0, [f, fld("G", 4, 2)])])])))
    sx.reach()


def dims(sx, level, name):
    """any part of an array or list"""
    k = dict(dim=sx.opt("dim", sx.int("dim", -3, 3)), dim_increment=sx.opt("inc", sx.int("inc", -64, 64)))
    k["dim_index"] = sx.pick("idx", [None, "", "0-1", "A,B", "A-C", "3-1", ",", "x-", "-"])
    k["dim_name"] = sx.pick("dn", [None, "N"])
    if level == "reg":
        k["display_name"] = sx.pick("disp", [None, "D", "D%s", "D[%s]", "%s%s"])
    level = {"per": "per", "clu": "clu", "reg": "reg", "fld": "fld"}[level]
    documented(sx, process(sx, _tree(**{level: dict(name=name, **k)})))
    sx.reach()


SLOTS = [("per", "name"), ("clu", "name"), ("reg", "name"), ("inn", "name"), ("fld", "name"), ("enm", "name"), ("val", "name"),
         ("val", "value"), ("reg", "display_name"), ("reg", "alternate_register"), ("reg", "alternate_group"),
         ("clu", "alternate_cluster"), ("per", "alternate_peripheral"), ("per", "derived_from"), ("clu", "derived_from"),
         ("reg", "derived_from"), ("inn", "derived_from"), ("fld", "derived_from"), ("enm", "derived_from"), ("fld", "bit_range"),
         ("per", "prepend_to_name"), ("per", "append_to_name"), ("per", "header_struct_name"), ("per", "disable_condition"),
         ("int", "name"), ("dev", "name")]


def texts(sx, slot, n, dim):
    """any short text at any place, also in an array"""
    kind, attr = SLOTS[slot]
    k = {kind: {attr: sx.text("t", 0, n, "QPRCFE.%s[]0-:, x")}}
    if dim and kind in ("per", "clu", "reg", "inn", "fld"):
        k[kind].update(dim=2, dim_increment=8)
        if attr != "name":
            k[kind]["name"] = "%sX" if dim == "list" else "X[%s]"
    documented(sx, process(sx, _tree(**k)))
    sx.reach()


def pairs(sx, a, b):
    """short texts at two places that refer to each other"""
    (k1, a1), (k2, a2) = SLOTS[a], SLOTS[b]
    k = {k1: {a1: sx.text("t", 0, 2, "PRCF.Q")}}
    k.setdefault(k2, {})[a2] = sx.text("u", 0, 2, "PRCF.Q")
    documented(sx, process(sx, _tree(**k)))
    sx.reach()


def shapes(sx):
    """empty and missing parts everywhere"""
    k = {}
    P = lambda n: sx.pick(n, [False, True])
    if P("noreg"):
        k["per"] = dict(registers_clusters=[])
    if P("noblock"):
        k.setdefault("per", {})["address_blocks"] = []
    if P("noint"):
        k.setdefault("per", {})["interrupts"] = []
    if P("noinner"):
        k["clu"] = dict(registers_clusters=[])
    if P("nofield"):
        k["reg"] = dict(fields=[])
    else:
        f = sx.pick("enums", [0, 1, 2, 3])
        k["fld"] = dict(enumerated_value_containers=[evc([ev("E%d" % i, "0")], usage=sx.pick("u%d" % i, [None, EnumUsageType.READ]))
                                                     for i in range(f)])
        if P("novals"):
            k["enm"] = dict(enumerated_values=[])
            k["fld"] = {}
    d = _tree(**k)
    if P("none"):
        d.peripherals = []
    documented(sx, process(sx, d))
    sx.reach()


def processor(sx):
    """any numbers in the processor section"""
    n = [sx.int("n%d" % i, -BIG, BIG) for i in range(5)]
    rs = [SVDSauRegion(base=n[0], limit=n[1], access=list(SauAccessType)[0])]
    c = SVDCPU(name=sx.choice("cn", list(CPUNameType)), revision=sx.text("rv", 0, 2, "r0."), endian=EndianType.LITTLE, nvic_prio_bits=n[2],
               vendor_systick_config=False, device_num_interrupts=n[3], sau_num_regions=n[4],
               sau_regions_config=SVDSauRegionsConfig(regions=rs if sx.pick("rs", [False, True]) else []))
    documented(sx, process(sx, _tree(dev=dict(cpu=c))))
    sx.reach()


def constraint(sx, level):
    """any combination of write constraints"""
    w = SVDWriteConstraint(write_as_read=sx.opt("a", sx.bool("a")), use_enumerated_values=sx.opt("b", sx.bool("b")),
                           range_=(sx.int("lo", -BIG, BIG), sx.int("hi", -BIG, BIG)) if sx.pick("r", [False, True]) else None)
    documented(sx, process(sx, _tree(**{level: dict(write_constraint=w)})))
    sx.reach()


def regmap(sx, kinds):
    """whatever was processed is exported and listed"""
    k = {kind: {a: sx.int(kind + "." + a, -8, BIG) for a in NUMBERS[kind]} for kind in kinds}
    if "reg" in k:
        k["reg"]["size"] = sx.choice("rs", [8, 32, 64, 12])
    out = process(sx, _tree(**k))
    documented(sx, out)
    if out.ok:
        o = sx.run(lambda: PeripheralRegisterMap(out.value))
        sx.check(o.ok, "a processed device has a register map")
    sx.reach()


# --- documents ---------------------------------------------------------------------------------------------------

def _document():
    """a document with one element of every kind"""
    dv = plain_node("device", "D")
    cpu = plain_node("cpu", "CM4")
    sau = plain_node("sauRegionsConfig")
    sau.add(plain_node("region"))
    cpu.add(sau)
    p = plain_node("peripheral", "P")
    p.values["baseAddress"] = ("0x100", 256)
    b = plain_node("addressBlock")
    b.put("offset", "0", 0)
    i = plain_node("interrupt", "I")
    i.put("value", "3", 3)
    c = plain_node("cluster", "C")
    r2 = plain_node("register", "S")
    c.add(r2)
    r = plain_node("register", "R")
    r.put("dim", "2", 2).put("dimIncrement", "4", 4).put("dimIndex", "A,B", "A,B").put("size", "32", 32)
    r.values["name"] = ("R%s", "R%s")
    f = plain_node("field", "F")
    f.put("bitOffset", "0", 0).put("bitWidth", "2", 2).put("access", "read-write", None)
    w = plain_node("writeConstraint")
    w.put("writeAsRead", "true", True)
    es = plain_node("enumeratedValues")
    es.put("usage", "read", None)
    e = plain_node("enumeratedValue", "E")
    e.put("value", "1", "1")
    es.add(e)
    f.add(w, es)
    r.add(f)
    p.add(b, i, r, c)
    dv.add(cpu, p)
    x = dv.xml()
    x.set("schemaVersion", "1.3")
    return x


def count():
    return len(list(_document().iter()))


OPS = ["drop", "clear", "twice", "unknown", "nested", "up", "notext", "comment"]


def document(sx, lo, hi, op):
    """a document with one element dropped, emptied, repeated, renamed, nested, moved: read or refused with the documented errors"""
    x = _document()
    items = list(x.iter())[lo:hi]
    e = sx.pick("element", items)
    up = e.getparent()
    if op == "notext":
        e.text = sx.text("t", 0, 1, "x1 -#")
    elif op == "comment":
        e.insert(0, ET.Comment("c"))
    elif op == "clear":
        t = e.tail
        e.clear()
        e.tail = t
    elif up is None:
        e.attrib.clear()
    elif op == "drop":
        up.remove(e)
    elif op == "twice":
        import copy
        up.insert(sx.pick("at", [0, len(up)]), copy.deepcopy(e))
    elif op == "unknown":
        e.tag = sx.pick("tag", ["nonsense", "name", "registers", "register", "cluster", "field", "fields", "dim", "enumeratedValues"])
    elif op == "nested":
        n = ET.SubElement(up, e.tag)
        n.append(e)
    elif op == "up" and up.getparent() is not None:
        up.getparent().append(e)
    out = sx.run(lambda: Parser(ET.ElementTree(x)).get_parsed_device())
    sx.observe("outcome", out.kind)
    sx.check(out.ok or out.isa("ParserException", "NotImplementedError"),
             "read, or refused with the documented errors" + ("" if sx.symbolic else " (got " + out.kind + ")"))
    if out.ok:
        documented(sx, process(sx, out.value))
    sx.reach()
