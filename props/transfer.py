"""C03: every element arrives in its own place; mandatory ones are required; containment links are set."""
from props.svdxml import *


def _links(sx, o, parent=None):
    if parent is not None:
        sx.check(o.parent is parent, "a nested element knows its container")
    for k in list(o.__dict__):
        if k == "parent":
            continue
        v = o.__dict__[k]
        if isinstance(v, list):
            for x in v:
                if hasattr(x, "__dataclass_fields__"):
                    _links(sx, x, o)
        elif hasattr(v, "__dataclass_fields__"):
            _links(sx, v, o)


def _compare(sx, out, node):
    d = expect_ok(sx, out, "a valid document is parsed")
    if d is None:
        return None
    want = node.model()
    want.xs_no_namespace_schema_location = "CMSIS-SVD.xsd"
    same_tree(sx, flat(d), flat(want), "parsed")
    _links(sx, d)
    return d


def level(sx, level, gi, k, rest):
    """one level: presence of k optional elements free, the other ones all present or all absent, all values free"""
    group = options(level)[gi * k:gi * k + k]
    fixed = [t for t in options(level) if t not in group] if rest else []
    n = Node(level)
    fill(sx, n, level, optional=group, fixed=fixed)
    root = wrap(n)
    out = parse(sx, root)
    d = _compare(sx, out, root)
    if d is not None:
        sx.observe("names", [p.name for p in d.peripherals])
    sx.reach()


def mandatory(sx, level):
    """leaving out a mandatory element (or its text) is refused"""
    n = plain_node(level)
    tags = list(n.mandatory)
    if level == "device":
        tags = [t for t in tags if t != "description"]
    t = sx.pick("missing", tags)
    if sx.pick("how", ["absent", "empty"]) == "absent":
        del n.values[t]
    else:
        n.values[t] = (None, None)
    out = parse(sx, wrap(n))
    sx.observe("outcome", out.kind)
    sx.check(out.isa("ParserException"), "a missing mandatory element is refused")
    sx.reach()


def lenient(sx):
    """documented leniences: description, schema location, interrupt value, block offset"""
    case = sx.pick("case", ["description", "interrupt", "location", "offset", "version", "peripherals"])
    dv = plain_node("device")
    p = plain_node("peripheral")
    dv.add(p)
    if case == "interrupt":
        p.add(fill(sx, Node("interrupt"), "i", fixed=["description"]))
    if case == "offset":
        p.add(fill(sx, Node("addressBlock"), "b"))
    if case == "description":
        del dv.values["description"]
    x = dv.xml()
    if case == "peripherals":
        x.remove(x.find("peripherals"))
    if case != "version":
        x.set("schemaVersion", "1.2")
    if case != "location":
        x.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", "loc")
    out = sx.run(lambda: Parser(ET.ElementTree(x)).get_parsed_device())
    sx.observe("outcome", out.kind)
    if case in ("version", "peripherals"):
        sx.check(out.isa("ParserException"), "a missing mandatory part is refused")
    else:
        sx.check(out.ok, "a tolerated omission is parsed")
        if out.ok:
            d = out.value
            sx.check(d.description == ("" if case == "description" else "N"), "description")
            sx.check(d.xs_no_namespace_schema_location == ("" if case == "location" else "loc"), "schema location")
            sx.check(d.schema_version == "1.2", "schema version")
            if case == "interrupt":
                sx.check(sx.eq(d.peripherals[0].interrupts[0].value, 0), "interrupt without value has value 0")
            if case == "offset":
                sx.check(sx.eq(d.peripherals[0].address_blocks[0].offset, 0), "block without offset starts at 0")
            if case != "offset":
                sx.check(warned(sx, out, ""), "the omission is reported")
    sx.reach()


def _lots(sx, n, name):
    return fill(sx, n, name, fixed=options(n.level))


def tree(sx, shape):
    """several children per container, in document order, with free values"""
    dv, p, q = plain_node("device"), plain_node("peripheral", "P"), plain_node("peripheral", "Q")
    dv.add(p, q)
    few = {"register": ["size", "resetValue", "displayName"], "cluster": ["size", "alternateCluster"],
           "field": ["bitOffset", "bitWidth", "access"], "enumeratedValue": ["value", "isDefault"],
           "enumeratedValues": ["usage", "name"], "interrupt": ["description", "value"],
           "addressBlock": ["offset", "protection"], "region": ["enabled", "name"], "writeConstraint": [],
           "dimArrayIndex": ["headerEnumName"], "cpu": [], "sauRegionsConfig": ["enabled"]}
    cnt = {}

    def mk(level):
        cnt[level] = cnt.get(level, 0) + 1
        n = Node(level)
        return fill(sx, n, level + str(cnt[level]), fixed=few[level])

    if shape == "registers":
        c = mk("cluster").add(mk("register"), mk("cluster").add(mk("register")), mk("register"))
        p.add(mk("register"), c, mk("register"))
        q.add(mk("cluster"), mk("register"))
    elif shape == "fields":
        r1, r2 = mk("register"), mk("register")
        e1, e2 = mk("enumeratedValues"), mk("enumeratedValues")
        e1.add(mk("enumeratedValue"), mk("enumeratedValue"))
        e2.add(mk("enumeratedValue"))
        r1.add(mk("field").add(e1, e2), mk("field"))
        r2.add(mk("field"))
        p.add(r1)
        q.add(r2)
    elif shape == "blocks":
        p.add(mk("addressBlock"), mk("addressBlock"), mk("interrupt"), mk("interrupt"))
        q.add(mk("interrupt"), mk("addressBlock"))
    elif shape == "cpu":
        cpu = mk("cpu")
        cpu.add(mk("sauRegionsConfig").add(mk("region"), mk("region")))
        dv.kids.insert(0, cpu)
    elif shape == "constraints":
        lo, hi = value(sx, "int", "lo"), value(sx, "int", "hi")
        r = mk("register")
        w = mk("writeConstraint")
        w.kids.append(Range(lo, hi))
        f = mk("field")
        f.add(fill(sx, Node("writeConstraint"), "w", fixed=["writeAsRead", "useEnumeratedValues"]))
        da = mk("dimArrayIndex").add(mk("enumeratedValue"), mk("enumeratedValue"))
        r.add(w, da, f)
        c = mk("cluster")
        c.add(mk("dimArrayIndex").add(mk("enumeratedValue")))
        p.add(r, c)
        p.add(mk("dimArrayIndex").add(mk("enumeratedValue")))
        f.add(mk("dimArrayIndex").add(mk("enumeratedValue")))
    out = parse(sx, dv)
    d = _compare(sx, out, dv)
    if d is not None:
        sx.observe("n", len(d.peripherals))
    sx.reach()


def containers(sx, what):
    """a peripheral (register) with several registers (fields) containers: every child, with its values and its container"""
    dv, p = plain_node("device"), plain_node("peripheral", "P")
    dv.add(p)
    few = {"register": ["size"], "cluster": ["access"], "field": ["bitOffset"]}
    levels = ["register", "cluster", "register"] if what == "registers" else ["field"] * 3
    kids = [fill(sx, Node(l), "k%d" % i, fixed=few[l]) for i, l in enumerate(levels)]
    top = p
    if what == "registers":
        kids[1].add(fill(sx, Node("register"), "inner"))
    else:
        top = plain_node("register", "R")
        p.add(top)
    top.add(*kids)
    x = dv.xml()
    old = [e for e in x.iter(what)][0]
    up = old.getparent()
    items = list(old)
    up.remove(old)
    at = [0] + [sx.pick("at%d" % i, [False, True]) for i in (1, 2)]
    c = None
    for i in range(3):
        if i == 0 or at[i]:
            c = ET.SubElement(up, what)
        c.append(items[i])
    out = parse(sx, x)
    d = _compare(sx, out, dv)
    if d is not None:
        sx.observe("n", len(d.peripherals))
    sx.reach()


def crowd(sx, parent, child, n):
    """many children of one kind in one container, in document order, one of them with content of its own"""
    root = crowded(sx, parent, child, n)
    d = _compare(sx, parse(sx, root), root)
    if d is not None:
        sx.observe("n", len(d.peripherals))
    sx.reach()
