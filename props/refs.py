"""Derivation references: which element a path names, cycles and dangling references, order of declaration."""
from props.common import *

TOP = 2**64 - 1

# ------------------------------------------------------------------ which element a reference names (C14)


class El:
    """an element of the model tree: symbolic name, kind, unique mark, children"""

    def __init__(self, kind, name, mark, kids=(), group=None):
        self.kind, self.name, self.mark, self.kids, self.group = kind, name, mark, list(kids), group


def _matches(sx, nodes, parts, skip, kind, cond=True):
    out = []
    for n in nodes:
        if n is skip:
            continue
        c = sx.And(cond, sx.eq(n.name, parts[0]))
        if len(parts) == 1:
            if n.kind == kind:
                out.append((c, n))
        else:
            out += _matches(sx, n.kids, parts[1:], skip, kind, c)
    return out


def _count(sx, ms):
    n = 0
    for c, _ in ms:
        n = n + sx.ite(c, 1, 0)
    return n


def _build(e, at):
    k = {"description": e.mark}
    if e.kind == "per":
        return per(e.name, 0x1000 * at, [_build(x, i) for i, x in enumerate(e.kids)], **k)
    if e.kind == "clu":
        return clu(e.name, 0x40 * at, [_build(x, i) for i, x in enumerate(e.kids)], **k)
    if e.kind == "reg":
        return reg(e.name, 8 * at, [_build(x, i) for i, x in enumerate(e.kids)], alternate_group=e.group, **k)
    if e.kind == "fld":
        return fld(e.name, 3 * at, 2, [_build(x, i) for i, x in enumerate(e.kids)], **k)
    u = [EnumUsageType.READ, EnumUsageType.WRITE][at]
    return evc([ev("v", "0", description=e.mark)], name=e.name, usage=u)


def _find(pd, level):
    """the derived element: the only one named D (enumerations: the one of field D)"""
    out = []
    for p in pd.peripherals:
        if level == "per":
            out.append(p)
        for x in walk(p.registers_clusters):
            if (level == "reg") == isreg(x) and level in ("reg", "clu"):
                out.append(x)
            if isreg(x) and level in ("fld", "enum"):
                out += x.fields
    return [x for x in out if x.name == "D"]


REFS = {
    "per": ["X", "Y", "Z", "P.X", "X.Y", "D"],
    "clu": ["X", "Y", "P.X", "P.Y", "Q.X", "Q.Y", "X.Y", "P.X.X", "P.X.Y", "P.Y.X", "P", "Q", "Z", "X.D", "Q.D"],
    "reg": ["X", "Y", "P.X", "Q.X", "Q.Y", "X.X", "X.Y", "P.X.X", "P.Y.Y", "P.X.Y", "Q.X.Y", "P", "Q", "Z", "Q.D", ""],
    "fld": ["X", "Y", "R.X", "P.R.X", "P.S.X", "P.S.Y", "P.R.Y", "Q.R.X", "P.R", "Z", "P.X.X", "S.X"],
    "enum": ["X", "Y", "P.R.F.X", "P.R.G.X", "P.R.D.X", "P.R.G.Y", "F.X", "P.R.F", "G.X", "Z"],
}
NM = ["X", "Y"]


def scope(sx, level, lo=0, hi=99, deep=False):
    """names of the candidates are free, the reference is each of the paths"""
    ref = sx.pick("ref", REFS[level][lo:hi])
    n = lambda i: sx.choice("n%d" % i, NM)
    D = El(level, "D", None)
    if level == "per":
        roots = [El("per", n(0), "m0", [El("reg", n(1), "m1")]), El("per", n(2), "m2", [El("reg", "R", "m3")]), D]
        sibs = roots
    elif level == "clu":
        c = lambda nm, mk, kids=None: El("clu", nm, mk, kids or [El("reg", "R", "r")])
        p = [c(n(0), "m0"), El("clu", n(1), "m1", [c(n(2), "m2"), El("reg", "R", "r")])]
        q = [c(n(3), "m3"), El("reg", n(4), "m4"), D]
        roots = [El("per", "P", "p", p), El("per", "Q", "q", q)]
        sibs = q
    elif level == "reg":
        p = [El("reg", n(0), "m0"), El("clu", n(1), "m1", [El("reg", n(2), "m2")])]
        q = [El("reg", n(3), "m3"), El("clu", n(4), "m4", [El("reg", n(5), "m5")])]
        (q[1].kids if deep else q).append(D)
        roots = [El("per", "P", "p", p), El("per", "Q", "q", q)]
        sibs = q[1].kids if deep else q
    elif level == "fld":
        r = [El("fld", n(0), "m0"), El("fld", "W", "w")]
        s = [El("fld", n(1), "m1"), El("fld", n(2), "m2"), D]
        roots = [El("per", "P", "p", [El("reg", "R", "r", r), El("reg", "S", "s", s)])]
        sibs = s
    else:
        f = [El("enum", n(0), "m0")]
        g = [El("enum", n(1), "m1"), El("enum", n(2), "m2")]
        d = [El("enum", "own", "own"), D]
        roots = [El("per", "P", "p", [El("reg", "R", "r", [El("fld", "F", "f", f), El("fld", "G", "g", g), El("fld", "D", "d", d)])])]
        D.name = None
        sibs = d
    # siblings have different names
    def distinct(nodes):
        for i, a in enumerate(nodes):
            for b in nodes[:i]:
                if a.name is not None and b.name is not None:
                    sx.assume(sx.Not(sx.eq(a.name, b.name)))
            distinct(a.kids)

    distinct(roots)
    parts = ref.split(".")
    near_ = _matches(sx, sibs, parts, D, level)
    far = _matches(sx, roots, parts, D, level)
    # build, then mark the referring element
    objs = [_build(x, i) for i, x in enumerate(roots)]

    def locate(nodes, els):
        for o, e in zip(nodes, els):
            if e is D:
                return o
            kids = getattr(o, "registers_clusters", None)
            if kids is None:
                kids = getattr(o, "fields", None)
            if kids is None:
                kids = getattr(o, "enumerated_value_containers", None)
            if kids:
                r = locate(kids, e.kids)
                if r is not None:
                    return r
        return None

    o = locate(objs, roots)
    o.derived_from = ref
    if level == "enum":
        o.enumerated_values, o.usage, o.name = [], None, None
    elif level in ("per", "clu"):
        o.registers_clusters = [reg("OWN", 0x800)]
        o.description = None
    else:
        o.description = None
    d = dev(objs)
    if level == "enum":
        # the own enumeration of field D must not clash with the copied usage
        fd = objs[0].registers_clusters[0].fields[2]
        fd.enumerated_value_containers = [o]
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    nn, nf = _count(sx, near_), _count(sx, far)
    good = sx.Or(sx.eq(nn, 1), sx.And(sx.eq(nn, 0), sx.eq(nf, 1)))
    sx.check(sx.Implies(sx.Not(good), out.isa("ProcessException")), "a reference that names no or several elements is refused")
    sx.check(sx.Implies(good, out.ok), "a reference that names one element is accepted")
    if out.ok:
        got = _find(out.value, level)
        sx.check(sx.eq(len(got), 1), "derived element exists once")
        if len(got) == 1:
            mark = got[0].description
            if level == "enum":
                mark = got[0].enumerated_value_containers[0].enumerated_values[0].description
            for ms, when in ((near_, sx.eq(nn, 1)), (far, sx.eq(nn, 0))):
                for c, e in ms:
                    sx.check(sx.Implies(sx.And(when, c), sx.eq(mark, e.mark)), "the reference is resolved to the element it names")
    sx.reach()


def groups(sx, where):
    """registers of the same name in alternate groups: the one outside any group is meant"""
    g = [sx.opt("g0", "G"), sx.opt("g1", sx.choice("g1", ["G", "H"]))]
    nm = [sx.choice("n0", NM), "X"]
    same = sx.eq(nm[0], "X")
    sx.assume(sx.Not(sx.And(same, sx.eq(g[0], g[1]))))
    cands = [reg(nm[i], 8 * i, description="m%d" % i, alternate_group=g[i]) for i in range(2)]
    dd = reg("D", 0x40, derived_from="X" if where == "sibling" else "P.X", alternate_group="Z")
    if where == "sibling":
        d = dev([per("P", 0, cands + [dd])])
    else:
        d = dev([per("P", 0, cands), per("Q", 0x1000, [dd])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    free = [sx.And(same, g[0] is None), g[1] is None]
    nfree = sx.ite(free[0], 1, 0) + sx.ite(free[1], 1, 0)
    good = sx.Or(sx.Not(same), sx.eq(nfree, 1))
    sx.check(sx.Implies(sx.Not(good), out.isa("ProcessException")), "several candidates are refused")
    sx.check(sx.Implies(good, out.ok), "the only candidate, or the only one outside any group, is taken")
    if out.ok:
        regs = [r for p in out.value.peripherals for r in p.registers]
        got = by_name(regs, "D")
        sx.check(sx.eq(got.description, sx.ite(sx.And(same, free[0]), "m0", "m1")), "the reference is resolved to the element it names")
    sx.reach()


def arrays(sx, level):
    """references to the template of an array, to one of its elements, and to something inside one"""
    inc = sx.int("inc", 0x100, 0xFFFF)
    ref = sx.pick("ref", ["tmpl", "elem", "inside", "inside_tmpl", "missing"])
    rv = sx.int("rv", 0, TOP)
    if level == "clu":
        a = clu("C%s", 0, [reg("R", 4, [fld("F", 0, 2)], reset_value=rv)], dim=2, dim_increment=inc, dim_index="A,B")
        if ref in ("tmpl", "elem"):
            dd = clu("D" if ref == "elem" else "D%s", 0x100000, [], derived_from="P.CB" if ref == "elem" else "P.C%s")
        else:
            dd = reg("D", 0x100000, derived_from={"inside": "P.CB.R", "inside_tmpl": "P.C%s.R"}.get(ref, "P.CC.R"))
        d = dev([per("P", 0, [a], ab=0x100000), per("Q", 0x10000000, [dd], ab=0x400000)])
    else:
        a = reg("C%s", 0, [fld("F", 0, 2), fld("G", 4, 2)], reset_value=rv, dim=2, dim_increment=inc, dim_index="A,B")
        if ref in ("tmpl", "elem"):
            dd = reg("D" if ref == "elem" else "D%s", 0x100000, derived_from="P.CB" if ref == "elem" else "P.C%s")
            d = dev([per("P", 0, [a], ab=0x100000), per("Q", 0x10000000, [dd], ab=0x400000)])
        else:
            f = SVDField(name="D", bit_offset=8, bit_width=2, derived_from={"inside": "P.CB.F", "inside_tmpl": "P.C%s.F"}.get(ref, "P.CC.F"))
            d = dev([per("P", 0, [a], ab=0x100000), per("Q", 0x10000000, [reg("S", 0, [f])], ab=0x400000)])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    if ref == "missing":
        rejected(sx, out, "a reference to a missing element is refused")
        sx.reach()
        return
    pd = expect_ok(sx, out)
    if pd is None:
        return
    q = by_name(pd.peripherals, "Q")
    want = ["DA", "DB"] if ref == "tmpl" else ["D"]
    if ref in ("tmpl", "elem") or level == "clu":
        sx.check(sx.eq(sorted(names(q.registers_clusters)), want), "elements derived from the array or one element")
        for i, r in enumerate(q.registers):
            sx.check(sx.eq(r.reset_value, rv), "derived from the element that is named")
            sx.check(sx.eq(len(r.fields), 1 if level == "clu" else 2), "fields of the named element")
    else:
        sx.check(sx.eq(names(q.registers[0].fields), ["D"]), "derived field")
    sx.reach()


# ------------------------------------------------------------------ cycles, dangling references (C15)

def near_array(sx, level, form):
    """names that are only part of the name of an array or list name nothing"""
    nm = "C" + form
    rv = sx.int("rv", 0, TOP)
    first = sx.pick("first", [False, True])
    stem = sx.pick("ref", ["C", "C[0]", "C[]", "C%s" if form == "[%s]" else "C[%s]", "C2", "C0", nm])
    far = sx.pick("far", [False, True])
    if level == "per":
        if form == "%s":
            sx.reach()
            return
        a = per(nm, 0x10000, [reg("R", 0, reset_value=rv)], dim=2, dim_increment=0x1000)
        b = per("D" if stem != nm else "D" + form, 0x90000, [], ab=None, derived_from=stem)
        d = dev([a, b] if first else [b, a])
    else:
        make = (lambda n, o, **k: clu(n, o, [] if "derived_from" in k else [reg("R", 0, reset_value=rv)], **k)) if level == "clu" else (
            lambda n, o, **k: reg(n, o, **(k if "derived_from" in k else dict(k, reset_value=rv))))
        a = make(nm, 0, dim=2, dim_increment=0x10)
        b = make("D" if stem != nm else "D" + form, 0x100, derived_from="P." + stem if far else stem)
        d = dev([per("P", 0, [a, b] if first else [b, a])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    if stem in (nm, "C0"):
        pd = expect_ok(sx, out, "the array and its elements can be named")
        if pd is not None:
            got = [r for p in pd.peripherals for r in p.registers]
            sx.check(sx.eq(len(got), 3 if stem == "C0" else 4), "all elements")
            for r in got:
                sx.check(sx.eq(r.reset_value, rv), "values of the base")
    else:
        sx.check(out.isa("ProcessException"), "a name that no element has is refused")
    sx.reach()


def _acyclic(refs):
    """refs: index of the base, None for none, -1 dangling -> description is acceptable"""
    for i in range(len(refs)):
        seen, j = [], i
        while j is not None:
            if j == -1 or j in seen:
                return False
            seen.append(j)
            j = refs[j]
    return True


def graph(sx, level, n, first=None):
    """every assignment of references among n siblings"""
    nm = ["A", "B", "C", "E", "F"][:n]
    # dangling ones: an unknown name, or an unknown container in front of a known one
    opts = [None] + nm + ["Z"] + ([] if n > 3 else ["Z." + nm[-1], "P." + nm[0] + "." + nm[0]])
    refs = [opts[first] if i == 0 and first is not None else sx.pick("ref%d" % i, opts) for i in range(n)]
    idx = [None if r is None else nm.index(r) if r in nm else -1 for r in refs]
    v = [sx.int("v%d" % i, 0, TOP) for i in range(n)]
    if level == "per":
        items = [per(nm[i], 0x1000 * i, [reg("R" + nm[i], 4 * i, reset_value=v[i])], derived_from=refs[i]) for i in range(n)]
        d = dev(items)
    elif level == "clu":
        items = [clu(nm[i], 0x100 * i, [reg("R" + nm[i], 4 * i, reset_value=v[i])], derived_from=refs[i]) for i in range(n)]
        d = dev([per("P", 0, items)])
    elif level == "reg":
        items = [reg(nm[i], 0x10 * i, [fld("R" + nm[i], 4 * i, 2)], reset_value=v[i] if refs[i] is None else None,
                     derived_from=refs[i]) for i in range(n)]
        d = dev([per("P", 0, items)])
    elif level == "fld":
        items = [fld(nm[i], 4 * i, 2, description=None if refs[i] is not None else "d%d" % i, derived_from=refs[i]) for i in range(n)]
        d = dev([per("P", 0, [reg("R", 0, items)])])
    else:
        items = []
        for i in range(n):
            ref = refs[i]
            if ref in nm:
                ref = "P.R.F" + ref + "." + ref
            items.append(fld("F" + nm[i], 4 * i, 2, [SVDEnumeratedValueContainer(
                name=nm[i], enumerated_values=[ev("e%d" % i, "0")] if refs[i] is None else [], derived_from=ref)]))
        d = dev([per("P", 0, [reg("R", 0, items)])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    if not _acyclic(idx):
        sx.check(out.isa("ProcessException"), "cyclic, self and dangling references are refused")
        sx.reach()
        return
    pd = expect_ok(sx, out, "acyclic and resolvable references are accepted")
    if pd is None:
        return
    chain = []
    for i in range(n):
        j, c = i, []
        while j is not None:
            c.append(j)
            j = idx[j]
        chain.append(c)
    p = pd.peripherals
    if level == "per":
        got = p
    elif level in ("clu", "reg"):
        got = p[0].registers_clusters
    else:
        got = p[0].registers[0].fields
    sx.check(sx.eq(sorted(names(got)), sorted(nm if level != "enum" else ["F" + x for x in nm])), "every element is there")
    for i in range(n):
        x = by_name(got, nm[i] if level != "enum" else "F" + nm[i])
        root = chain[i][-1]
        if level in ("per", "clu"):
            sx.check(sx.eq(sorted(names(x.registers_clusters)), sorted("R" + nm[j] for j in chain[i])), "children of every base")
            for j in chain[i]:
                sx.check(sx.eq(by_name(x.registers_clusters, "R" + nm[j]).reset_value, v[j]), "child of the right base")
        elif level == "reg":
            sx.check(sx.eq(sorted(names(x.fields)), sorted("R" + nm[j] for j in chain[i])), "fields of every base")
            sx.check(sx.eq(x.reset_value, v[root]), "property of the root of the chain")
        elif level == "fld":
            sx.check(sx.eq(x.description, "d%d" % root), "property of the root of the chain")
        else:
            sx.check(sx.eq(names(x.enumerated_value_containers[0].enumerated_values), ["e%d" % root]), "values of the root of the chain")
    sx.reach()


def cross(sx, first=None):
    """references between registers and peripherals at once: accepted exactly if the dependencies are acyclic"""
    refs = {}
    po = {"P": [None, "Q", "P"], "Q": [None, "P", "Z"]}
    ro = {"A": [None, "Q.C", "B", "A"], "B": [None, "A", "P.A"], "C": [None, "P.A", "P.B", "C"]}
    refs["P"] = po["P"][first] if first is not None else sx.pick("refP", po["P"])
    for k in ("Q",):
        refs[k] = sx.pick("ref" + k, po[k])
    for k in ("A", "B", "C"):
        refs[k] = sx.pick("ref" + k, ro[k])
    va = sx.int("va", 0, TOP)
    d = dev([per("P", 0, [reg("A", 0, derived_from=refs["A"], reset_value=va), reg("B", 8, derived_from=refs["B"])], derived_from=refs["P"]),
             per("Q", 0x1000, [reg("C", 0x10, derived_from=refs["C"], reset_value=None)], derived_from=refs["Q"])])
    out = process(sx, d)
    sx.observe("outcome", out.kind)
    tgt = {"P": None, "Q.C": "C", "P.A": "A", "P.B": "B", "A": "A", "B": "B", "C": "C"}
    # reference chains per kind must end, and no reference may dangle
    bad = refs["P"] == "P" or refs["Q"] == "Z" or (refs["P"] == "Q" and refs["Q"] == "P")
    for k in "ABC":
        seen, j = [], k
        while j is not None and j not in seen:
            seen.append(j)
            j = tgt[refs[j]] if refs[j] else None
        bad = bad or j is not None
    sx.check(out.ok or out.isa("ProcessException"), "the only error is the documented one")
    if bad:
        sx.check(not out.ok, "cyclic, self and dangling references are refused")
    elif refs["P"] is None and refs["Q"] is None:
        sx.check(out.ok, "acyclic and resolvable references are accepted")
    if out.ok:
        p, q = by_name(out.value.peripherals, "P"), by_name(out.value.peripherals, "Q")
        sx.check(p is not None and q is not None, "no partial result")
        want = {"P": ["A", "B"], "Q": ["C"]}
        wp = want["P"] + (want["Q"] if refs["P"] == "Q" else [])
        wq = want["Q"] + (want["P"] if refs["Q"] == "P" else [])
        sx.check(sx.eq(sorted(names(p.registers)), sorted(wp)), "no partial result")
        sx.check(sx.eq(sorted(names(q.registers)), sorted(wq)), "no partial result")
        for x, own in ((p, "AB"), (q, "C")):
            for r in x.registers:
                root = r.name
                while refs[root]:
                    root = tgt[refs[root]]
                # A states its value itself; others take it from the base that states one
                k = r.name
                stated = 0
                while k is not None:
                    if k == "A":
                        stated = va
                        break
                    k = tgt[refs[k]] if refs[k] else None
                sx.check(sx.eq(r.reset_value, stated), "derived registers have the value of their base")
    sx.reach()


# ------------------------------------------------------------------ order of declaration (C16)

def _perms(n):
    if n == 1:
        return [[0]]
    out = []
    for p in _perms(n - 1):
        for i in range(n):
            out.append(p[:i] + [n - 1] + p[i:])
    return out


def permuted(sx, level, links, n):
    """links: for each element the index of its base or None; both orders are processed and compared"""
    perms = [p for p in _perms(n) if p != list(range(n))]
    perm = perms[0] if len(perms) == 1 else sx.pick("perm", perms)
    v = [sx.int("v%d" % i, 0, TOP) for i in range(n)]
    at = [sx.int("a%d" % i, 0, 0xFFFF) * 4 for i in range(n)]
    for i in range(1, n):
        sx.assume(at[i - 1] + 0x100 < at[i])
    nm = ["M", "C", "X", "A"]
    acc = [sx.opt("acc%d" % i, sx.choice("acc%d" % i, ACC[:2])) for i in range(n)]

    def build():
        items = []
        for i in range(n):
            df = None if links[i] is None else nm[links[i]]
            own = links[i] is None
            if level == "per":
                items.append(per(nm[i], at[i], [reg("R%d" % i, 4 * i, reset_value=v[i])], ab=0x100 if own else None, access=acc[i], derived_from=df))
            elif level == "clu":
                items.append(clu(nm[i], at[i], [reg("R%d" % i, 4 * i, reset_value=v[i])], access=acc[i], derived_from=df))
            elif level == "reg":
                items.append(reg(nm[i], at[i], [fld("R%d" % i, 4 * i, 2)], reset_value=v[i] if own else None, access=acc[i], derived_from=df))
            elif level == "fld":
                items.append(SVDField(name=nm[i], bit_offset=8 * i, bit_width=None if df else 2, access=acc[i], derived_from=df,
                                      description="d%d" % i if own else None))
            elif level == "mixed":
                items.append(reg(nm[i], at[i], reset_value=v[i]) if i % 2 else clu(nm[i], at[i], [reg("K", 0, derived_from=None if df is None else "P." + df, reset_value=None if df else v[i])], access=acc[i]))
            elif level == "val":
                items.append(ev(nm[i], sx.num(16 * i + 3)))
            elif level == "far":
                # registers of different peripherals, one deriving from the next
                items.append(per(nm[i], at[i], [reg("R", 0, reset_value=None if df else v[i], derived_from=None if df is None else df + ".R", access=acc[i])]))
            else:
                items.append(fld(nm[i], 8 * i, 2, [SVDEnumeratedValueContainer(name="E", enumerated_values=[] if df else [ev("e%d" % i, "1")],
                                                                               derived_from=None if df is None else "P.R." + df + ".E")]))
        return items

    def wrap(items):
        if level in ("per", "far"):
            return dev(items)
        if level in ("clu", "reg", "mixed"):
            return dev([per("P", 0, items, ab=0x100000)])
        if level == "val":
            return dev([per("P", 0, [reg("R", 0, [fld("F", 0, 8, [evc(items)])])])])
        return dev([per("P", 0, [reg("R", 0, items, size=64)])])

    a = process(sx, wrap(build()))
    other = build()
    b = process(sx, wrap([other[i] for i in perm]))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(a.ok and b.ok, "accepted in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()


def sized(sx, where):
    """registers of any sizes (and with or without other properties): the container is the same in every order"""
    perm = sx.pick("perm", [[2, 1, 0], [1, 2, 0]])
    size = [sx.pick("s%d" % i, [None, 8, 32, 64, 128] if i else [None, 12, 32, 128]) for i in range(3)]
    v = [sx.opt("v%d" % i, sx.int("v%d" % i, 0, TOP)) for i in range(3)]
    top = 64

    def build(order):
        items = [reg("R%d" % i, 0x10 * i, size=size[i], reset_value=v[i], reset_mask=v[i - 1]) if i or where != "mixed" else
                 clu("R0", 0, [reg("K", 0, size=size[i])], reset_value=v[i]) for i in range(3)]
        items = [items[i] for i in order]
        if where == "clu":
            return dev([per("P", 0, [clu("C", 0, items), reg("Z", 0x100)], size=top)])
        return dev([per("P", 0, items, size=top)])

    a, b = process(sx, build([0, 1, 2])), process(sx, build(perm))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(sx.eq(a.kind, b.kind), "accepted or refused in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()


def alike(sx, what):
    """elements that are equal in what they are first sorted by: the same device in every order"""
    if what == "enum":
        n = [sx.pick("n%d" % i, [1, 2]) for i in range(2)]
        us = sx.pick("usages", [(EnumUsageType.READ, EnumUsageType.WRITE), (EnumUsageType.WRITE, EnumUsageType.READ)])
        ds = [sx.text("d%d" % i, 1, 1, "AB") for i in range(2)]

        def items():
            return [evc([ev("e%d" % j, str(j), description=ds[i]) for j in range(n[i])], usage=us[i], name="N%d" % i) for i in range(2)]

        def wrap(x):
            return dev([per("P", 0, [reg("R", 0, [fld("F", 0, 4, x)])])])
        count = 2
    elif what == "fld":
        ls = [sx.int("l%d" % i, 0, 6) for i in range(2)]
        ws = [sx.int("w%d" % i, 1, 3) for i in range(2)]
        nm = sx.pick("names", [["A", "B"], ["B", "A"], ["_A", "A"]])
        acc = [AccessType.READ_ONLY, AccessType.WRITE_ONLY]

        def items():
            return [fld(nm[i], ls[i], ws[i], access=acc[i]) for i in range(2)] + [fld("Z", 20, 2)]

        def wrap(x):
            return dev([per("P", 0, [reg("R", 0, x)])])
        count = 3
    elif what == "per":
        bs = [sx.int("b%d" % i, 0, 2) * 0x1000 for i in range(3)]

        def items():
            return [per(["B", "A", "_C"][i], bs[i], [reg("R%d" % i, 0)]) for i in range(3)]

        def wrap(x):
            return dev(x)
        count = 3
    else:
        os = [sx.int("o%d" % i, 0, 2) * 4 for i in range(3)]

        def items():
            return [clu(["B", "A", "_C"][i], os[i], [reg("R%d" % i, 0)]) if what == "clu" and i else reg(["B", "A", "_C"][i], os[i]) for i in range(3)]

        def wrap(x):
            return dev([per("P", 0, x)])
        count = 3
    perm = sx.pick("perm", [p for p in _perms(count) if p != list(range(count))]) if count > 2 else [1, 0]
    a = process(sx, wrap(items()))
    other = items()
    b = process(sx, wrap([other[i] for i in perm]))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(sx.eq(a.kind, b.kind), "accepted or refused in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()


def toplevel(sx, shape):
    """derivations across levels: the base may be declared before or after its users at several levels at once"""
    po = sx.pick("peripherals", [[0, 1, 2], [2, 1, 0], [1, 2, 0], [0, 2, 1], [1, 0, 2], [2, 0, 1]])
    ro = sx.pick("registers", [[0, 1], [1, 0]])
    v = [sx.int("v%d" % i, 0, TOP) for i in range(3)]

    def build(po, ro):
        def order(x):
            return [x[i] for i in ro]

        if shape == "inner":
            # B derives from A, a register of A derives from one of C, one of C from its sibling
            ps = [per("A", 0, order([reg("X", 0, derived_from="C.Y"), reg("W", 8, reset_value=v[0])])),
                  per("B", 0x1000, order([reg("U", 0x40, derived_from="A.W"), reg("V", 0x48, derived_from="A.X")]), derived_from="A"),
                  per("C", 0x2000, order([reg("Y", 0, derived_from="Z"), reg("Z", 8, reset_value=v[1])]))]
        elif shape == "nested":
            ps = [per("A", 0, order([clu("K", 0, [reg("X", 0, derived_from="C.L.Y")]), clu("M", 0x100, [], derived_from="C.L")])),
                  per("B", 0x1000, order([clu("N", 0, [], derived_from="A.K"), reg("V", 0x148, derived_from="A.M.Y")])),
                  per("C", 0x2000, order([clu("L", 0, [reg("Y", 4, reset_value=v[1])]), reg("Z", 0x80, reset_value=v[0])]))]
        else:
            ps = [per("A[%s]", 0, order([reg("X%s", 0, [fld("F", 0, 2)], dim=2, dim_increment=4, reset_value=v[0]), reg("W", 0x10, derived_from="C.Y")]), dim=2, dim_increment=0x100),
                  per("B", 0x1000, order([reg("U", 0x40, derived_from="A0.W"), reg("V", 0x48, derived_from="A1.X1")])),
                  per("C", 0x2000, order([reg("Y", 0, [fld("G", 0, 2)], reset_value=v[1]), reg("Z", 8, [SVDField(name="H", bit_offset=4, derived_from="C.Y.G")])]))]
        return dev([ps[i] for i in po])

    a = process(sx, build([0, 1, 2], [0, 1]))
    b = process(sx, build(po, ro))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(a.ok and b.ok, "accepted in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()


# ------------------------------------------------------------------ many elements

def _crowd(sx, level, refs, v, at):
    """n elements of one level; element i has children/marks of its own"""
    n = len(refs)
    nm = ["ELEMENT_%d" % i for i in range(n)]
    df = [None if r is None else r if isinstance(r, str) else nm[r] for r in refs]
    own = [x is None for x in df]
    if level == "per":
        return nm, [per(nm[i], 0x1000 * at[i], [reg("R%d" % i, 4 * i, reset_value=v[i])], ab=0x1000 if own[i] else None, derived_from=df[i]) for i in range(n)]
    if level == "clu":
        return nm, [clu(nm[i], 0x100 * at[i], [reg("R%d" % i, 4 * i, reset_value=v[i])], derived_from=df[i]) for i in range(n)]
    if level == "reg":
        return nm, [reg(nm[i], 0x10 * at[i], [fld("R%d" % i, i, 1)], reset_value=v[i] if own[i] else None, derived_from=df[i]) for i in range(n)]
    if level == "fld":
        return nm, [fld(nm[i], 2 * at[i], 2, description="d%d" % i if own[i] else None, derived_from=df[i]) for i in range(n)]
    return nm, [fld("F" + nm[i], 2 * at[i], 2, [SVDEnumeratedValueContainer(
        name=nm[i], enumerated_values=[ev("e%d" % i, "0")] if own[i] else [],
        derived_from=df[i] if df[i] is None or df[i] not in nm else "P.R.F" + df[i] + "." + df[i])]) for i in range(n)]


def _home(level, items):
    if level == "per":
        return dev(items)
    if level in ("clu", "reg"):
        return dev([per("P", 0, items, ab=0x10000)])
    return dev([per("P", 0, [reg("R", 0, items, size=64)])])


def crowd_graph(sx, level, n, shape):
    """n elements that derive from each other in a chain or a tree, declared in no particular order; one reference is free"""
    pos = [(i * 9 + 3) % n for i in range(n)]       # place of element i in the chain
    who = {pos[i]: i for i in range(n)}
    assert len(who) == n
    refs = []
    for i in range(n):
        up = pos[i] - 1 if shape == "chain" else (pos[i] - 1) // 2
        refs.append(None if pos[i] == 0 else who[up])
    at = sx.pick("at", [0, n // 2, n - 1])
    free = sx.pick("ref", [None] + list(range(n)) + ["Z"])
    refs[at] = free
    v = [sx.int("v", 0, TOP) if pos[i] == 0 else 0x1000 + i for i in range(n)]
    nm, items = _crowd(sx, level, refs, v, list(range(n)))
    out = process(sx, _home(level, items))
    sx.observe("outcome", out.kind)
    idx = [-1 if r == "Z" else r for r in refs]
    if not _acyclic(idx):
        sx.check(out.isa("ProcessException"), "cyclic, self and dangling references are refused")
        sx.reach()
        return
    pd = expect_ok(sx, out, "acyclic and resolvable references are accepted")
    if pd is None:
        return
    p = pd.peripherals
    got = p if level == "per" else p[0].registers_clusters if level in ("clu", "reg") else p[0].registers[0].fields
    pre = "F" if level == "enum" else ""
    sx.check(sx.eq(sorted(names(got)), sorted(pre + x for x in nm)), "every element is there")
    for i in range(n):
        x, chain, j = by_name(got, pre + nm[i]), [], i
        if x is None:
            continue
        while j is not None:
            chain.append(j)
            j = idx[j]
        root = chain[-1]
        if level in ("per", "clu"):
            sx.check(sx.eq(sorted(names(x.registers_clusters)), sorted("R%d" % j for j in chain)), "children of every base")
            for c in x.registers_clusters:
                k = int(c.name[1:])
                sx.check(sx.eq([c.reset_value, c.base_address], [v[k], x.base_address + 4 * k]), "child of the right base")
        elif level == "reg":
            sx.check(sx.eq(sorted(names(x.fields)), sorted("R%d" % j for j in chain)), "fields of every base")
            sx.check(sx.eq(x.reset_value, v[root]), "property of the root of the chain")
        elif level == "fld":
            sx.check(sx.eq(x.description, "d%d" % root), "property of the root of the chain")
        else:
            sx.check(sx.eq(names(x.enumerated_value_containers[0].enumerated_values), ["e%d" % root]), "values of the root of the chain")
    sx.reach()


def crowd_waiting(sx, level, n):
    """n references that all have to wait for the same peripheral, which derives from one declared last; one of them is free"""
    at = sx.pick("at", [0, n // 2, n - 1])
    free = sx.pick("ref", ["Z.B", "Y.B", "Z.NONE", "A.E%d" % at, "A.E%d" % (n // 4), None])
    last = sx.pick("last", [False, True])
    v = sx.int("v", 0, TOP)
    refs = ["Z.B"] * n
    refs[at] = free
    es = [(clu if level == "clu" else reg)("E%d" % i, 0x10 * i, *([[]] if level == "clu" and refs[i] else [[reg("K", 0)]] if level == "clu" else []), derived_from=refs[i])
          for i in range(n)]
    b = clu("B", 0, [reg("K", 0, reset_value=v)]) if level == "clu" else reg("B", 0, reset_value=v)
    ps = [per("A", 0x100000, es, ab=0x10000), per("Z", 0x200000, [], ab=None, derived_from="Y"), per("Y", 0x300000, [b])]
    out = process(sx, dev(ps if last else ps[::-1]))
    sx.observe("outcome", out.kind)
    if free == "Z.NONE" or free == "A.E%d" % at:
        sx.check(out.isa("ProcessException"), "self and dangling references are refused")
        sx.reach()
        return
    pd = expect_ok(sx, out, "resolvable references are accepted")
    if pd is not None:
        a = by_name(pd.peripherals, "A")
        sx.check(sx.eq(sorted(names(a.registers_clusters)), sorted("E%d" % i for i in range(n))), "every element is there")
        for r in a.registers:
            own = free is None and (r.name == "E%d" % at if level == "reg" else r.base_address == a.base_address + 0x10 * at)
            sx.check(sx.eq(r.reset_value, 0 if own else v), "values of the root of the chain")
    sx.reach()


def crowd_order(sx, level, n, shape):
    """n elements deriving from each other: the same device whatever the order of declaration"""
    refs = [None] + [(i - 1 if shape == "chain" else (i - 1) // 2) for i in range(1, n)]
    turn, back = sx.pick("turn", list(range(0, n, 3))), sx.pick("back", [False, True])
    mix = sx.pick("mix", [1, 3, 9])
    order = [(i * mix + turn) % n for i in range(n)]
    assert sorted(order) == list(range(n))
    if back:
        order.reverse()
    v = [sx.int("v%d" % i, 0, TOP) if i < 3 else 0x1000 + i for i in range(n)]

    def build():
        return _crowd(sx, level, refs, v, list(range(n)))[1]

    a = process(sx, _home(level, build()))
    other = build()
    b = process(sx, _home(level, [other[i] for i in order]))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(a.ok and b.ok, "accepted in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()


def crowd_scope(sx, level):
    """many elements whose names start like each other, in many containers: exactly the one named is meant"""
    ps = ["P1", "P10", "P11", "P100", "P_1", "P"]
    rs = ["R1", "R10", "R11", "R100", "R_1", "R"]
    p, r = sx.pick("p", ps + ["P2", "p1"]), sx.pick("r", rs + ["R2", "r1"])
    deep = sx.pick("deep", [False, True])
    v = sx.int("v", 0, TOP)
    pers = []
    for i, pn in enumerate(ps):
        def mark(k, j):
            return v if (pn, rs[j], k) == (p, r, deep) else 0x10000 * k + 0x100 * i + j
        inner = [reg(rs[j], 4 * j, [fld("F", 0, 4)], reset_value=mark(True, j)) for j in range(len(rs))]
        outer = [reg(rs[j], 0x100 + 4 * j, [fld("F", 0, 4)], reset_value=mark(False, j)) for j in range(len(rs))]
        pers.append(per(pn, 0x1000 * i, outer + [clu("R1C", 0, inner)]))
    ref = p + (".R1C." if deep else ".") + r
    pers.insert(sx.pick("at", [0, len(ps)]), per("USER", 0x100000, [reg("D", 0, derived_from=ref)]))
    out = process(sx, dev(pers))
    sx.observe("outcome", out.kind)
    if p not in ps or r not in rs:
        sx.check(out.isa("ProcessException"), "a reference that names no element is refused")
    else:
        sx.check(out.ok, "a reference that names one element is accepted")
        if out.ok:
            sx.check(sx.eq(by_name(out.value.peripherals, "USER").registers[0].reset_value, v), "the reference is resolved to the element it names")
    sx.reach()


def deep_scope(sx, kind, n):
    """a path through n nested clusters: every level must match, no more and no fewer levels than stated"""
    depth = sx.pick("depth", list(range(n + 1)))
    flaw = sx.pick("flaw", ["none", "level", "short", "long"])
    at = sx.pick("at", sorted({0, depth // 2, depth})) if flaw != "none" else 0
    v = sx.int("v", 0, TOP)

    def mark(i):
        return v if i == depth else 0x1000 + i

    def kids(i):
        out = [reg("R", 0, [fld("F", 0, 4, description="f%d" % i)], reset_value=mark(i), description="d%d" % i)]
        return out + ([clu("C%d" % i, 0x10, kids(i + 1), description="c%d" % i)] if i < n else [])

    path = ["P"] + ["C%d" % i for i in range(depth)]
    path += {"reg": ["R"], "fld": ["R", "F"], "clu": []}[kind]
    if flaw == "level":
        path[at] = "Z"
    elif flaw == "short":
        if at == depth > 0:         # names the element one level up
            sx.reach()
            return
        del path[at]
    elif flaw == "long":
        path.insert(at, path[at - 1] if at else "P")
    ref = ".".join(path)
    if kind == "clu":
        if depth == 0:
            sx.reach()
            return
        user = clu("D", 0, [], derived_from=ref)
    elif kind == "reg":
        user = reg("D", 0, derived_from=ref)
    else:
        user = reg("D", 0, [SVDField(name="G", bit_offset=8, bit_width=2, derived_from=ref)])
    ps = [per("P", 0x10000, kids(0)), per("Q", 0x20000, [user])]
    if sx.pick("first", [False, True]):
        ps.reverse()
    out = process(sx, dev(ps))
    sx.observe("outcome", out.kind)
    if flaw != "none":
        sx.check(out.isa("ProcessException"), "a reference that names no element is refused")
        sx.reach()
        return
    sx.check(out.ok, "a reference that names one element is accepted")
    if out.ok:
        q = by_name(out.value.peripherals, "Q").registers_clusters[0]
        if kind == "fld":
            sx.check(sx.eq(q.fields[0].description, "f%d" % depth), "the reference is resolved to the element it names")
        elif kind == "reg":
            sx.check(sx.eq([q.reset_value, q.description], [v, "d%d" % depth]), "the reference is resolved to the element it names")
        else:
            sx.check(sx.eq(q.description, "c%d" % (depth - 1)), "the reference is resolved to the element it names")
            sx.check(sx.eq(by_name(q.registers_clusters, "R").reset_value, v), "the reference is resolved to the element it names")
    sx.reach()


def containers(sx, level, user, base):
    """containers with references inside them are derived from and state properties of their own: the same device in every order"""
    po = sx.pick("outer", [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]])
    ro = sx.pick("inner", [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
    acc = [sx.opt("acc%d" % i, ACC[i]) for i in range(3)]
    rv = sx.int("rv", 0, TOP)
    pre = "" if level == "per" else "P."

    def kids():
        ref = {"sibling": "R", "own": pre + "A.R", "next": pre + "B.R", "far": pre + "Q.R"}[base]
        if user == "reg":
            x = reg("U", 0x20, derived_from=ref)
        elif user == "clu":
            x = clu("U", 0x20, [], derived_from=ref[:-1] + "C")
        elif user == "fld":
            x = reg("U", 0x20, [SVDField(name="G", bit_offset=8, bit_width=2, derived_from=("" if base != "sibling" else pre + "A.") + ref + ".F")])
        else:
            x = reg("U", 0x20, [fld("G", 8, 2, [SVDEnumeratedValueContainer(enumerated_values=[], derived_from=("" if base != "sibling" else pre + "A.") + ref + ".F.E")])])
        out = [reg("R", 0, [fld("F", 0, 2, [evc([ev("v", "0")], name="E")], description="f")], reset_value=rv), clu("C", 0x100, [reg("K", 0)]), x]
        return [out[i] for i in ro_]

    def build(po, ro):
        nonlocal ro_
        ro_ = ro
        q = [reg("R", 0, [fld("F", 0, 2, [evc([ev("v", "0")], name="E")], description="q")], reset_value=rv), clu("C", 0x100, [reg("K", 0)])]
        if level == "per":
            x = [per("A", 0x10000, kids(), access=acc[0]), per("B", 0x20000, [], ab=None, derived_from="A", access=acc[1]),
                 per("E", 0x30000, [], ab=None, derived_from="B", access=acc[2]), per("Q", 0x40000, q)]
            return dev([x[i] for i in po])
        x = [clu("A", 0x1000, kids(), access=acc[0]), clu("B", 0x2000, [], derived_from="A", access=acc[1]),
             clu("E", 0x3000, [], derived_from="B", access=acc[2]), clu("Q", 0x4000, q)]
        return dev([per("P", 0, [x[i] for i in po], ab=0x10000)])

    ro_ = None
    a = process(sx, build([0, 1, 2, 3], [0, 1, 2]))
    b = process(sx, build(po, ro))
    sx.observe("outcome", [a.kind, b.kind])
    sx.check(sx.And(a.ok, b.ok), "accepted in every order")
    if a.ok and b.ok:
        same_tree(sx, flat(a.value), flat(b.value), "same device in every order")
    sx.reach()
