"""Unique names among siblings."""
from props.common import *


def _pairs(sx, keys):
    return sx.Or(*[sx.And(*[sx.eq(x, y) for x, y in zip(keys[i], keys[j])]) for i in range(len(keys)) for j in range(i)])


def _verdict(sx, out, dup):
    sx.observe("outcome", out.kind)
    sx.check(sx.Implies(dup, out.isa("ProcessException")), "equal names among siblings are refused")
    sx.check(sx.Implies(sx.Not(dup), out.ok), "different names are accepted")


def siblings(sx, level, n, kinds=None, depth=0):
    """n siblings with arbitrary short names, all other values apart"""
    ns = [sx.text("n%d" % i, 1, 1, "ABab_0") for i in range(n)]
    if level == "per":
        d = dev([per(ns[i], 0x1000 * i, [reg("R", 0)]) for i in range(n)])
    elif level == "fld":
        d = dev([per("P", 0, [reg("R", 0, [fld(ns[i], 4 * i, 4) for i in range(n)])])])
    else:
        kids = [reg(ns[i], 0x100 * i) if kinds[i] == "r" else clu(ns[i], 0x100 * i, [reg("R", 0)]) for i in range(n)]
        for i in range(depth):
            kids = [clu("L%d" % i, 0, kids)]
        d = dev([per("P", 0, kids)])
    out = process(sx, d)
    _verdict(sx, out, _pairs(sx, [[x] for x in ns]))
    if out.ok:
        p = out.value.peripherals
        got = p if level == "per" else p[0].registers[0].fields if level == "fld" else p[0].registers_clusters
        for i in range(depth):
            got = got[0].registers_clusters
        sx.check(sx.eq(len(got), n), "all siblings are kept")
        for i in range(n):
            sx.check(sx.eq(got[i].name, ns[i]), "names are taken over")
    sx.reach()


def crowd(sx, level, n, k):
    """n siblings with long names, two of them arbitrary in the character at position k"""
    stem = "M" * k
    i, j = sx.pick("i", [0, 1, n // 2]), sx.pick("j", [n - 1, n - 2])
    ns = [stem + "%02d" % m for m in range(n)]
    ns[i], ns[j] = stem + sx.text("a", 1, 1, "ABab_0"), stem + sx.text("b", 1, 1, "ABab_0")
    if level == "per":
        d = dev([per(ns[m], 0x1000 * m, [reg("R", 0)]) for m in range(n)])
    elif level == "fld":
        d = dev([per("P", 0, [reg("R", 0, [fld(ns[m], 2 * m, 2) for m in range(n)], size=64)])])
    else:
        kids = [reg(ns[m], 0x100 * m) if level == "reg" or m % 2 else clu(ns[m], 0x100 * m, [reg("R", 0)]) for m in range(n)]
        d = dev([per("P", 0, kids)])
    out = process(sx, d)
    _verdict(sx, out, sx.eq(ns[i], ns[j]))
    if out.ok:
        p = out.value.peripherals
        got = p if level == "per" else p[0].registers[0].fields if level == "fld" else p[0].registers_clusters
        sx.check(sx.eq(names(got), ns), "names are taken over")
    sx.reach()


def groups(sx, n, cluster):
    """registers in alternate groups: only registers of the same group (or of none) and clusters collide"""
    ns = [sx.text("n%d" % i, 1, 1, "AB") for i in range(n)]
    gs = [sx.pick("g%d" % i, [None, "G", "H"]) for i in range(n)]
    kids = [reg(ns[i], 0x100 * i, alternate_group=gs[i]) for i in range(n)]
    keys = [[ns[i], gs[i] or ""] for i in range(n)]
    if cluster:
        c = sx.text("c", 1, 1, "AB")
        kids.insert(1, clu(c, 0x800, [reg("R", 0)]))
        keys.append([c, ""])
    out = process(sx, dev([per("P", 0, kids)]))
    _verdict(sx, out, _pairs(sx, keys))
    if out.ok:
        sx.check(sx.eq(len(out.value.peripherals[0].registers_clusters), len(kids)), "all siblings are kept")
    sx.reach()


def containers(sx):
    """the same names in different containers, at every level"""
    ns = [sx.text("n%d" % i, 1, 1, "AB") for i in range(6)]
    d = dev([
        per("P", 0, [reg(ns[0], 0, [fld(ns[1], 0, 4)]), clu(ns[2], 0x100, [reg(ns[3], 0, [fld(ns[1], 0, 4)])])]),
        per("Q", 0x1000, [reg(ns[4], 0, [fld(ns[5], 0, 4)])]),
    ])
    out = process(sx, d)
    _verdict(sx, out, sx.eq(ns[0], ns[2]))
    sx.reach()


def expanded(sx, level, form):
    """names created by expansion against an explicit sibling (and against each other)"""
    nm = "A[%s]" if form == "array" else "A%s"
    t = sx.text("t", 1, 1, "0123B")
    idx = None
    texts = ["0", "1"]
    if form == "index":
        texts = [sx.text("x%d" % i, 1, 1, "01B") for i in range(2)]
        idx = texts[0] + "," + texts[1]
    k = dict(dim=2, dim_increment=0x40 if level != "fld" else 4, dim_index=idx)
    other = "A" + t
    made = [["A" + x] for x in texts] + [[other]]
    first = sx.pick("first", [True, False])
    if level == "per":
        items = [per(nm, 0, [reg("R", 0)], ab=0x10, **k), per(other, 0x1000, [reg("R", 0)])]
    elif level == "clu":
        items = [clu(nm, 0, [reg("R", 0)], **k), clu(other, 0x400, [reg("R", 0)])]
    elif level == "reg":
        items = [reg(nm, 0, **k), reg(other, 0x400)]
    else:
        items = [fld(nm, 0, 2, **k), fld(other, 20, 2)]
    if not first:
        items.reverse()
    if level == "per":
        d = dev(items)
    elif level == "fld":
        d = dev([per("P", 0, [reg("R", 0, items)])])
    else:
        d = dev([per("P", 0, items)])
    out = process(sx, d)
    _verdict(sx, out, _pairs(sx, made))
    sx.reach()


def derived(sx, level):
    """a derived element's own name, and the names of the children it takes over"""
    a, b, k, m = [sx.text(x, 1, 1, "ABC") for x in "abkm"]
    arr = sx.pick("array", [False, True])
    two = sx.pick("two", [False, True])
    kid = (lambda nm, o: reg(nm + ("%s" if arr else ""), 0x10 * o, **(dict(dim=2, dim_increment=4) if arr else {})))
    ends = ["0", "1"] if arr else [""]
    own = "X" + m if not two else k + ends[-1]
    sx.assume(sx.Not(sx.eq(a, b)) if level != "per" else True)
    if level == "per":
        d = dev([per("Z" + a, 0, [kid(k, 0)]), per("Z" + b, 0x1000, [reg(own, 0x80)], ab=None, derived_from="Z" + a)])
        dup = sx.Or(sx.eq(a, b), two)
    elif level == "clu":
        d = dev([per("P", 0, [clu("Z" + a, 0, [kid(k, 0)]), clu("Z" + b, 0x400, [reg(own, 0x80)], derived_from="Z" + a),
                              reg("Z" + m, 0x800)])])
        dup = sx.Or(sx.eq(a, m), sx.eq(b, m), two)
    else:
        f = fld(k + "%s", 0, 2, dim=2, dim_increment=2) if arr else fld(k, 0, 2)
        d = dev([per("P", 0, [reg("Z" + a, 0, [f]), reg("Z" + b, 0x400, [fld(own, 8, 2)], derived_from="Z" + a),
                              reg("Z" + m, 0x800)])])
        dup = sx.Or(sx.eq(a, m), sx.eq(b, m), two)
    out = process(sx, d)
    _verdict(sx, out, dup)
    sx.reach()
