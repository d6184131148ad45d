"""Builders for parsed device models and small helpers shared by the harnesses (public API only)."""
from svdsuite.model.parse import (
    SVDAddressBlock, SVDCluster, SVDCPU, SVDDevice, SVDDimArrayIndex, SVDEnumeratedValue,
    SVDEnumeratedValueContainer, SVDField, SVDInterrupt, SVDPeripheral, SVDRegister, SVDSauRegion,
    SVDSauRegionsConfig, SVDWriteConstraint,
)
from svdsuite.model.types import (
    AccessType, CPUNameType, DataTypeType, EndianType, EnumeratedTokenType, EnumUsageType,
    ModifiedWriteValuesType, ProtectionStringType, ReadActionType, SauAccessType,
)
from svdsuite.process import Process

ACC = list(AccessType)
PROT = list(ProtectionStringType)


def dev(peripherals, **k):
    d = dict(
        xs_no_namespace_schema_location="CMSIS-SVD.xsd", schema_version="1.3", name="Dev", version="1.0",
        description="device", address_unit_bits=8, width=32, peripherals=peripherals,
    )
    d.update(k)
    r = SVDDevice(**d)
    link(r)
    return r


def per(name, base, rc=(), ab=0x1000, **k):
    if ab is None:
        blocks = []
    elif isinstance(ab, list):
        blocks = ab
    else:
        blocks = [SVDAddressBlock(offset=0, size=ab, usage=EnumeratedTokenType.REGISTERS)]
    return SVDPeripheral(name=name, base_address=base, registers_clusters=list(rc), address_blocks=blocks, **k)


def clu(name, off, rc=(), **k):
    return SVDCluster(name=name, address_offset=off, registers_clusters=list(rc), **k)


def reg(name, off, fields=(), **k):
    return SVDRegister(name=name, address_offset=off, fields=list(fields), **k)


def fld(name, off=None, width=None, enums=(), **k):
    return SVDField(name=name, bit_offset=off, bit_width=width, enumerated_value_containers=list(enums), **k)


def blk(off, size, **k):
    return SVDAddressBlock(offset=off, size=size, usage=EnumeratedTokenType.REGISTERS, **k)


def ev(name, value=None, **k):
    return SVDEnumeratedValue(name=name, value=value, **k)


def evc(values, **k):
    return SVDEnumeratedValueContainer(enumerated_values=list(values), **k)


def link(d):
    """Set the parent links the parser would set."""
    def rcs(parent, items):
        for i in items:
            i.parent = parent
            if isinstance(i, SVDCluster):
                rcs(i, i.registers_clusters)
            else:
                for f in i.fields:
                    f.parent = i
                    for c in f.enumerated_value_containers:
                        c.parent = f
                        for v in c.enumerated_values:
                            v.parent = c

    if d.cpu is not None:
        d.cpu.parent = d
    for p in d.peripherals:
        p.parent = d
        for b in p.address_blocks:
            b.parent = p
        for i in p.interrupts:
            i.parent = p
        rcs(p, p.registers_clusters)


def process(sx, d):
    return sx.run(lambda: Process(d, None).get_processed_device())


def expect_ok(sx, out, label="valid description is processed"):
    """Assert the run succeeded; returns the value or None."""
    sx.observe("outcome", out.kind)
    sx.check(out.ok, f"{label} (got {out.kind})" if not sx.symbolic else label)
    if out.ok:
        sx.check(out.value is not None, label + " and gives a result")
    return out.value if out.ok else None


def by_name(items, name):
    for i in items:
        if i.name == name:
            return i
    return None


def names(items):
    return [i.name for i in items]


def first(*vals):
    """nearest defined value"""
    for v in vals[:-1]:
        if v is not None:
            return v
    return vals[-1]


def near(sx, *vals):
    """nearest defined value, merged (no fork)"""
    r = vals[-1]
    for v in reversed(vals[:-1]):
        r = sx.ite(v is not None, v, r)
    return r


SKIP = ("parsed", "parent", "is_dim_template")


def flat(o, prefix="", out=None):
    """Every public attribute of a model object tree as path -> scalar (parsed/parent links excluded)."""
    if out is None:
        out = {}
    for k in list(o.__dict__):
        if k in SKIP:
            continue
        v = o.__dict__[k]
        name = prefix + "." + k
        if isinstance(v, list):
            out[name + ".count"] = len(v)
            for i in range(len(v)):
                if hasattr(v[i], "__dataclass_fields__"):
                    flat(v[i], name + "[" + str(i) + "]", out)
                else:
                    out[name + "[" + str(i) + "]"] = v[i]
        elif hasattr(v, "__dataclass_fields__"):
            flat(v, name, out)
        else:
            out[name] = v
    return out


def same_tree(sx, a, b, what, ignore=()):
    """Assert that two flattened trees agree on every path."""
    keys = [k for k in a if not any(i in k for i in ignore)]
    other = [k for k in b if not any(i in k for i in ignore)]
    if keys != other:
        sx.fail(what + ": same structure")
        return
    for k in keys:
        sx.check(sx.eq(a[k], b[k]), what + ": " + k)


def isreg(x):
    return type(x).__name__ == "Register"


SPECIAL = ["", "A", "B", "P", "R", "X", "0", "reserved", "None", "two words", "\u00c4\u20ac", "[x]", "X%s", "X[%s]", "L" * 90]


def anytext(sx, name, n=2, alphabet="aZ_0 -"):
    """a free text of n characters, or one of some special texts"""
    return sx.ite(sx.bool(name + ".special"), sx.choice(name + ".text", SPECIAL), sx.text(name, n, n, alphabet))


def walk(items, out=None):
    """registers and clusters of a processed tree in document order"""
    if out is None:
        out = []
    for i in items:
        out.append(i)
        if not isreg(i):
            walk(i.registers_clusters, out)
    return out


def warned(sx, out, *parts):
    """some warning of this run contains all parts"""
    return sx.Or(*[sx.And(w[2], *[p in w[1] for p in parts]) for w in out.warns]) if out.warns else False


def quiet(sx, out):
    """no warning was issued"""
    return sx.Not(sx.Or(*[w[2] for w in out.warns])) if out.warns else True


def rejected(sx, out, label):
    """Assert the run was rejected with the documented processing error."""
    sx.observe("outcome", out.kind)
    sx.check(out.isa("ProcessException"), label)


def matches(sx, text, nfa, start, accept):
    """Does the text match the automaton {state: [(characters, next state), ...]}?  Merged, no fork; the length is fixed."""
    at = {start: True}
    for i in range(len(text)):
        c = text[i]
        nxt = {}
        for q in at:
            for chars, r in nfa.get(q, []):
                g = sx.And(at[q], sx.isin(c, list(chars)))
                nxt[r] = sx.Or(nxt[r], g) if r in nxt else g
        at = nxt
    return sx.Or(*[at[q] for q in at if q in accept])
