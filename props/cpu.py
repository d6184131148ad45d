"""Processor section."""
from props.common import *

TOP = 2**64 - 1
BOOLS = ["mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present", "itcm_present",
         "dtcm_present", "vtor_present"]


def section(sx, regions):
    """every value stated or not"""
    k = {b: sx.opt(b, sx.bool(b)) for b in BOOLS}
    dni, snr = sx.opt("dni", sx.int("dni", 0, 1023)), sx.opt("snr", sx.int("snr", 0, 255))
    name, endian = sx.choice("name", list(CPUNameType)), sx.choice("endian", list(EndianType))
    nvic, vst, rev = sx.int("nvic", 0, 8), sx.bool("vst"), sx.text("rev", 2, 4, "rp0123")
    rs, want = [], []
    n = max(regions, 0)
    for i in range(n):
        e, nm = sx.opt("e%d" % i, sx.bool("e%d" % i)), sx.opt("n%d" % i, sx.text("n%d" % i, 2, 2, "ab"))
        b, l, a = sx.int("b%d" % i, 0, TOP), sx.int("l%d" % i, 0, TOP), sx.choice("a%d" % i, list(SauAccessType))
        rs.append(SVDSauRegion(enabled=e, name=nm, base=b, limit=l, access=a))
        want.append([near(sx, e, True), nm, b, l, a])
    se, sp = sx.opt("se", sx.bool("se")), sx.opt("sp", sx.choice("sp", PROT))
    sau = SVDSauRegionsConfig(enabled=se, protection_when_disabled=sp, regions=rs) if regions >= 0 else None
    c = SVDCPU(name=name, revision=rev, endian=endian, nvic_prio_bits=nvic, vendor_systick_config=vst,
               device_num_interrupts=dni, sau_num_regions=snr, sau_regions_config=sau, **k)
    pd = expect_ok(sx, process(sx, dev([per("P", 0, [reg("R", 0)])], cpu=c)))
    if pd is None:
        return
    g = pd.cpu
    if g is None:
        sx.fail("the processor section is taken over")
        return
    for b in BOOLS:
        sx.check(sx.eq(getattr(g, b), near(sx, k[b], b == "vtor_present")), "stated value, else the documented default: " + b)
    plus = sx.ite(sx.eq(name, CPUNameType.CM0_PLUS), CPUNameType.CM0PLUS, name)
    sx.check(sx.eq(g.name, plus), "processor name")
    sx.check(sx.eq([g.revision, g.endian, g.nvic_prio_bits, g.vendor_systick_config, g.device_num_interrupts, g.sau_num_regions],
                   [rev, endian, nvic, vst, dni, snr]), "stated values are taken over")
    s = g.sau_regions_config
    if sau is None:
        sx.check(s is None, "no region configuration where none is stated")
    elif s is None:
        sx.fail("the region configuration is taken over")
    else:
        sx.check(sx.eq(s.enabled, near(sx, se, True)), "regions are enabled by default")
        sx.check(sx.eq(s.protection_when_disabled, near(sx, sp, ProtectionStringType.SECURE)), "secure when disabled by default")
        sx.check(sx.eq(len(s.regions), n), "every region is taken over")
        for i in range(len(s.regions)):
            r = s.regions[i]
            sx.check(sx.eq([r.enabled, r.name, r.base, r.limit, r.access], want[i]), "regions in order with their values")
    sx.reach()


def none(sx):
    """no processor section"""
    out = process(sx, dev([per("P", sx.int("b", 0, TOP), [reg("R", 0)])]))
    pd = expect_ok(sx, out)
    if pd is not None:
        sx.check(pd.cpu is None, "no processor section where none is stated")
    sx.reach()
