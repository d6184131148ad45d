"""Rich bounded descriptions with arbitrary values, used for history, export and register map."""
from props.common import *

TOP = 2**64 - 1
NAMES = ["arrays", "derived", "bits", "enums", "cpu", "texts", "registers", "overlapping", "alternates", "crowd"]


def _group(sx, n, some=("access", "protection", "reset_value", "reset_mask")):
    v = {}
    if "access" in some:
        v["access"] = sx.opt(n + "a", sx.choice(n + "a", ACC))
    if "protection" in some:
        v["protection"] = sx.opt(n + "p", sx.choice(n + "p", PROT))
    if "reset_value" in some:
        v["reset_value"] = sx.opt(n + "v", sx.int(n + "v", 0, TOP))
    if "reset_mask" in some:
        v["reset_mask"] = sx.opt(n + "m", sx.int(n + "m", 0, TOP))
    return v


def _t(sx, n):
    return sx.opt(n, sx.text(n, 2, 2, "abc"))


def arrays(sx):
    inc, b = sx.int("inc", 0x100, 0xFFF), sx.int("b", 0, TOP)
    c = clu("C[%s]", sx.int("co", 0, 0xFF), [
        reg("R%s", sx.int("ro", 0, 0xF), dim=2, dim_increment=sx.int("ri", 4, 8), dim_index="X,Y", display_name="D%s",
            **_group(sx, "r")),
        clu("N", 0x40, [reg("S", sx.int("so", 0, 0xF), [fld("F%s", sx.int("fl", 0, 3), 2, dim=2, dim_increment=sx.int("fi", 2, 9))])]),
    ], dim=2, dim_increment=inc, **_group(sx, "c"))
    return dev([per("P[%s]", b, [c, reg("T", 0x10000)], ab=0x20000, dim=2, dim_increment=sx.int("pi", 0x20000, 0xFFFFF), **_group(sx, "p"))],
               **_group(sx, "d"))


def derived(sx):
    w = SVDWriteConstraint(range_=(sx.int("lo", 0, 9), sx.int("hi", 0, 99)))
    u = SVDWriteConstraint(range_=(sx.int("flo", 0, 9), sx.int("fhi", 0, 99)))
    a = per("A", sx.int("a", 0, 0x8000), [
        reg("R", sx.int("ro", 0, 0xF), [fld("F", sx.int("l", 0, 7), 4, [evc([ev("E", "1")], name="EC")], read_action=ReadActionType.CLEAR)],
            write_constraint=w, **_group(sx, "r")),
        clu("C", 0x100, [reg("W", 0x20, [fld("V", 0, 4, write_constraint=u)]), reg("S", sx.int("so", 0, 0xF), derived_from="A.R", access=sx.opt("sa", sx.choice("sa", ACC)))], **_group(sx, "c")),
        clu("D", 0x200 + sx.int("do", 0, 0xF), [], derived_from="C"),
    ], version="1", group_name=_t(sx, "g"), **_group(sx, "p"))
    b = per("B", sx.int("b", 0x10000, 0x1FFFF), [
        reg("T", 0x400, [fld("G", sx.int("gl", 16, 20), 3, [SVDEnumeratedValueContainer(enumerated_values=[], derived_from="A.R.F.EC")]),
                         fld("H", 24, derived_from="A.R.F")], derived_from="A.C.S"),
    ], ab=None, derived_from="A", access=sx.opt("ba", sx.choice("ba", ACC)))
    return dev([b, a], size=sx.choice("sz", [32, 64]))


def bits(sx):
    k = dict(description=_t(sx, "d"), modified_write_values=sx.opt("m", sx.choice("m", list(ModifiedWriteValuesType))),
             read_action=sx.opt("rda", sx.choice("rda", list(ReadActionType))))
    x = sx.int("x", 0, 7)
    y = x + sx.int("y", 0, 7)
    fs = [fld("A", sx.int("al", 16, 24), sx.int("aw", 1, 8), access=sx.opt("aa", sx.choice("aa", ACC)), **k),
          SVDField(name="B", bit_range="[" + sx.num(y) + ":" + sx.num(x) + "]",
                   write_constraint=SVDWriteConstraint(write_as_read=sx.opt("war", sx.bool("war")))),
          SVDField(name="C", lsb=32, msb=32 + sx.int("cw", 0, 40))]
    r = reg("R", sx.int("o", 0, 0xFF), fs, size=sx.choice("s", [8, 16, 32, 64, 128]), data_type=sx.opt("dt", sx.choice("dt", list(DataTypeType))),
            write_constraint=SVDWriteConstraint(use_enumerated_values=sx.opt("uev", sx.bool("uev"))), **_group(sx, "r"))
    return dev([per("P", sx.int("b", 0, TOP), [r])], width=sx.int("w", 1, 64))


def enums(sx):
    v = [sx.int("v%d" % i, 0, 5) for i in range(2)]
    c1 = evc([ev("A", sx.num(v[0]), description=_t(sx, "d")), ev("D", None, is_default=True, description=_t(sx, "e")), ev("B", sx.num(v[1]))],
             usage=EnumUsageType.READ, name=_t(sx, "n"), header_enum_name=_t(sx, "h"))
    c2 = evc([ev("W", "#0x"), ev("reserved", "3"), ev("L", "0x3")], usage=EnumUsageType.WRITE)
    return dev([per("P", 0, [reg("R", 0, [fld("F", sx.int("l", 0, 9), 2, [c1, c2]), fld("G%s", 16, 2, [evc([ev("Z", "1")])], dim=2, dim_increment=3)])])])


def cpu(sx):
    B = ["mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present", "itcm_present",
         "dtcm_present", "vtor_present"]
    k = {b: sx.opt(b, sx.bool(b)) for b in B}
    rs = [SVDSauRegion(enabled=sx.opt("e%d" % i, sx.bool("e%d" % i)), name=_t(sx, "n%d" % i), base=sx.int("rb%d" % i, 0, TOP),
                       limit=sx.int("rl%d" % i, 0, TOP), access=sx.choice("ra%d" % i, list(SauAccessType))) for i in range(2)]
    sau = SVDSauRegionsConfig(enabled=sx.opt("se", sx.bool("se")),
                              protection_when_disabled=sx.opt("sp", sx.choice("sp", PROT)), regions=rs)
    c = SVDCPU(name=sx.choice("cn", list(CPUNameType)), revision="r0p0", endian=sx.choice("en", list(EndianType)),
               nvic_prio_bits=sx.int("np", 0, 9), vendor_systick_config=sx.bool("vs"),
               device_num_interrupts=sx.opt("di", sx.int("di", 0, 999)), sau_num_regions=sx.opt("sn", sx.int("sn", 0, 99)),
               sau_regions_config=sau if sx.pick("sau", [False, True]) else None, **k)
    return dev([per("P", 0, [reg("R", 0)])], cpu=c)


def texts(sx):
    D = ["vendor", "vendor_id", "series", "license_text", "header_system_filename", "header_definitions_prefix"]
    P = ["version", "description", "group_name", "prepend_to_name", "append_to_name", "header_struct_name", "disable_condition"]
    p = per("P", sx.int("b", 0, TOP), [reg("R", 0, description=_t(sx, "rd"), display_name=_t(sx, "rn")),
                                       clu("C", 0x10, [reg("R", 0)], description=_t(sx, "cd"), header_struct_name=_t(sx, "ch"))],
            ab=[SVDAddressBlock(offset=sx.int("o%d" % i, 0, 0xFFFF), size=sx.int("s%d" % i, 1, 0xFFFF),
                                usage=sx.choice("u%d" % i, list(EnumeratedTokenType)),
                                protection=sx.opt("p%d" % i, sx.choice("p%d" % i, PROT))) for i in range(2)],
            **{x: _t(sx, "p" + x) for x in P})
    p.interrupts = [SVDInterrupt(name="I%d" % i, value=sx.int("i%d" % i, 0, 99), description=_t(sx, "id%d" % i)) for i in range(2)]
    return dev([p], **{x: _t(sx, "d" + x) for x in D})


def overlapping(sx):
    """anything at any address: equal addresses, interleaved clusters, ignored elements"""
    o = [sx.int("o%d" % i, 0, 0x20) for i in range(5)]
    rs = [reg("B", o[0]), reg("A", o[1], size=8), clu("C", o[2], [reg("A", o[3], size=16), reg("Reserved", 0, size=16)]),
          reg("reserved", 0)]
    return dev([per("Q", sx.int("q", 0, 0x40), rs), per("P", o[4], [reg("R", 0)]), per("N", 0, [], size=32)])


def registers(sx):
    """what a register and a cluster can state beyond positions and the inherited properties"""
    r = reg("R", sx.int("o", 0, 0xFF), display_name=_t(sx, "n"), description=_t(sx, "d"), data_type=sx.opt("dt", sx.choice("dt", list(DataTypeType))),
            read_action=sx.opt("ra", sx.choice("ra", list(ReadActionType))),
            modified_write_values=sx.opt("mw", sx.choice("mw", list(ModifiedWriteValuesType))),
            write_constraint=SVDWriteConstraint(write_as_read=sx.bool("war")), alternate_group=_t(sx, "g"))
    c = clu("C", 0x200, [reg("S", 0, size=64, read_action=sx.opt("sra", sx.choice("sra", list(ReadActionType))))],
            description=_t(sx, "cd"), header_struct_name=_t(sx, "ch"))
    return dev([per("P", sx.int("b", 0, TOP), [r, c])])


def alternates(sx):
    rs = [reg("A", sx.int("a", 0, 8)), reg("B", sx.int("b", 0, 8), alternate_register="A"),
          reg("A", sx.int("c", 0, 8), alternate_group="G"), clu("K", 0x20, [reg("R", 0)]), clu("L", 0x20, [reg("R", 0)], alternate_cluster="K")]
    return dev([per("P", 0, rs), per("Q", sx.int("q", 0, 0x40), [reg("R", 0)], alternate_peripheral="P")])


def crowd(sx):
    """more of everything: long names, ten and more siblings, deep nesting, long chains of derivation"""
    f = [fld("FIELD_%d" % i, 3 * i, 2, access=ACC[i % 5]) for i in range(12)]
    f.insert(5, fld("FREE", sx.int("l", 36, 40), sx.int("fw", 1, 9), access=sx.opt("fa", sx.choice("fa", ACC))))
    many = [reg("REGISTER_%d" % i, 8 * ((i * 7) % 12), description="d%d" % i, reset_value=i) for i in range(12)]
    many[4] = reg("REGISTER_WITH_A_RATHER_LONG_NAME_OF_MORE_THAN_THIRTY_TWO_CHARACTERS", sx.int("o", 0x100, 0x1FF), f, size=64, **_group(sx, "r"))
    deep = [reg("LEAF", 0, **_group(sx, "leaf", ("access", "reset_value")))]
    for i in range(6, 0, -1):
        deep = [clu("LEVEL_%d" % i, 0x10, deep, **(_group(sx, "c", ("access", "protection")) if i == 3 else {})), reg("A%d" % i, 0)]
    es = [ev("VALUE_%d" % i, str(i * 5 % 16), description="v%d" % i) for i in range(11)]
    enum = reg("ENUM", 0x400, [fld("E", 0, 4, [evc(es + [ev("REST", None, is_default=True)])])])
    ps = [per("P%d" % i, 0x10000 * ((i * 7) % 10 + 1), [reg("R%d" % i, 4 * i)], ab=0x40 if i == 0 else None, derived_from=None if i == 0 else "P%d" % (i - 1)) for i in range(10)]
    main = per("MAIN", sx.int("b", 0, 0xFFFF) * 0x100000, many + [clu("DEEP", 0x800, deep), enum],
               ab=[blk(0x100 * ((i * 3) % 10), 0x80 + i) for i in range(10)], **_group(sx, "p"))
    main.interrupts = [SVDInterrupt(name="IRQ_%d" % i, value=(i * 7) % 11) for i in range(11)]
    return dev([*ps[:5], main, *ps[5:]])


class Fixed:
    """stands for sx, with the optional values all there or all absent"""

    def __init__(self, sx, there):
        self.sx, self.there = sx, there

    def opt(self, name, value):
        return value if self.there else None

    def __getattr__(self, k):
        return getattr(self.sx, k)


def build(sx, shape, optional=None):
    return globals()[shape](sx if optional is None else Fixed(sx, optional))
