"""Processing leaves its input untouched and is repeatable."""
from props import rich
from props.common import *
from svdsuite.map import PeripheralRegisterMap
from svdsuite.serialize import Serializer

TOP = 2**64 - 1


def _deep(o):
    """identity of every node of a description, in order"""
    out, todo = [], [o]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo.extend(x)
        elif hasattr(x, "__dataclass_fields__"):
            out.append(id(x))
            for k in list(x.__dict__):
                if k not in SKIP:
                    todo.append(x.__dict__[k])
    return out


def untouched(sx, shape):
    """the description before and after: same values, same objects, same parents; and after exporting the result"""
    d = rich.build(sx, shape)
    before, ids = flat(d), _deep(d)
    out = sx.run(lambda: Process(d, None))
    p = expect_ok(sx, out)
    same_tree(sx, flat(d), before, "description after processing")
    sx.check(_deep(d) == ids, "description consists of the same objects")
    for x in d.peripherals:
        sx.check(x.parent is d, "parents are untouched")
    if p is None:
        return
    r1 = flat(p.get_processed_device())
    out = sx.run(lambda: (p.convert_processed_device_to_svd_device(), PeripheralRegisterMap(p.get_processed_device())))
    sx.check(out.ok, "export and register map succeed")
    same_tree(sx, flat(p.get_processed_device()), r1, "processed device after exporting it")
    same_tree(sx, flat(d), before, "description after exporting")
    sx.reach()


def again(sx, shape, between):
    """processing twice, with another description (accepted or refused) in between"""
    d = rich.build(sx, shape)
    a = expect_ok(sx, process(sx, d))
    if a is None:
        return
    first = flat(a)
    n1 = None
    if between == "refused":
        x = process(sx, dev([per("P", 0, [reg("R", 0, derived_from="nowhere")])]))
        sx.check(x.isa("ProcessException"), "the other description is refused")
    elif between == "other":
        x = process(sx, dev([per("P", 0, [reg("R%s", 4, [fld("F", 0, 2, [evc([ev("E", "0"), ev("D", None, is_default=True)], name="EC")])],
                                              dim=2, dim_increment=4, size=16),
                                          clu("C", 0x20, [reg("T", 0)], access=AccessType.READ_ONLY), clu("K", 0x40, [], derived_from="C")]),
                             per("A", 0x1000, [], derived_from="P")], size=64, access=AccessType.WRITE_ONLY, reset_value=5))
        sx.check(x.ok, "the other description is accepted")
        n1 = flat(x.value)
    b = expect_ok(sx, process(sx, d))
    if b is None:
        return
    same_tree(sx, flat(b), first, "second result")
    same_tree(sx, flat(a), first, "first result after the second run")
    ids = _deep(a)
    sx.check(not [i for i in _deep(b) if i in ids], "results share nothing")
    if n1 is not None:
        same_tree(sx, flat(x.value), n1, "the other result")
    sx.reach()


def warnings_again(sx, shape):
    """the second run issues the same reports as the first"""
    d = rich.build(sx, shape)
    a, b = process(sx, d), process(sx, d)
    sx.check(sx.eq(a.kind, b.kind), "same outcome")
    n, m = 0, 0
    for w in a.warns:
        n = n + sx.ite(w[2], 1, 0)
    for w in b.warns:
        m = m + sx.ite(w[2], 1, 0)
    sx.check(sx.eq(n, m), "as many reports")
    sx.reach()


def refused(sx):
    """a refused description stays as it was, and is refused again"""
    a, b = sx.int("a", 0, 40), sx.int("b", 0, 40)
    d = dev([per("P", 0, [reg("R%s", 0, [fld("F", a, 8), fld("G", b, 8)], dim=2, dim_increment=4), reg("S", 8, [], derived_from="R%s")])])
    before, ids = flat(d), _deep(d)
    x = process(sx, d)
    same_tree(sx, flat(d), before, "description after processing")
    sx.check(_deep(d) == ids, "description consists of the same objects")
    y = process(sx, d)
    sx.check(sx.eq(x.kind, y.kind), "same outcome")
    if x.ok and y.ok:
        same_tree(sx, flat(x.value), flat(y.value), "second result")
    sx.reach()


# small descriptions with what they must come out as, whatever was processed before
def _list(sx, t):
    n, inc, o = sx.pick(t + "n", [2, 3]), sx.int(t + "inc", 4, 99), sx.int(t + "o", 0, 99)
    idx = sx.pick(t + "idx", [None, "A-B", "A-C", "x,y", "x,y,z", "1-2", "2-4"])
    toks = {None: ["0", "1", "2"][:n], "A-B": ["A", "B"], "A-C": ["A", "B", "C"], "x,y": ["x", "y"], "x,y,z": ["x", "y", "z"],
            "1-2": ["1", "2"], "2-4": ["2", "3", "4"]}[idx]
    d = dev([per("P", 0, [reg("R%s", o, dim=n, dim_increment=inc, dim_index=idx, display_name="N%s")])])
    if len(toks) != n:
        return d, None
    return d, lambda p: sx.eq([[r.name, r.display_name, r.address_offset] for r in p.peripherals[0].registers],
                              [["R" + toks[i], "N" + toks[i], o + inc * i] for i in range(n)])


def _array(sx, t):
    n, inc, b, o = sx.pick(t + "n", [1, 2, 3]), sx.int(t + "inc", 64, 99), sx.int(t + "b", 0, 99), sx.int(t + "o", 0, 9)
    d = dev([per("P[%s]", b, [clu("C[%s]", o, [reg("R", 4)], dim=n, dim_increment=8)], dim=2, dim_increment=inc)])
    return d, lambda p: sx.eq([[q.name, [[c.name, c.registers_clusters[0].base_address] for c in q.registers_clusters]] for q in p.peripherals],
                              [["P%d" % i, [["C%d" % j, b + inc * i + o + 8 * j + 4] for j in range(n)]] for i in range(2)])


def _enum(sx, t):
    w, v = sx.pick(t + "w", [1, 2]), sx.int(t + "v", 0, 1)
    lit = sx.pick(t + "lit", ["", "0x", "#"])
    d = dev([per("P", 0, [reg("R", 0, [fld("F", 0, w, [evc([ev("E", lit + sx.num(v)), ev("D", None, is_default=True)])])])])])
    return d, lambda p: sx.eq([[e.value, e.name] for e in p.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values],
                              [[i, sx.ite(sx.eq(v, i), "E", "D_%d" % i)] for i in range(2 ** w)])


def _field(sx, t):
    x, w = sx.int(t + "x", 0, 9), sx.int(t + "w", 1, 9)
    d = dev([per("P", 0, [reg("R", 0, [SVDField(name="F", bit_range="[" + sx.num(x + w - 1) + ":" + sx.num(x) + "]"), fld("G", 32, w)], size=64)])])
    return d, lambda p: sx.eq([[f.name, f.lsb, f.msb] for f in p.peripherals[0].registers[0].fields], [["F", x, x + w - 1], ["G", 32, 31 + w]])


def _inherit(sx, t):
    s, a, v = sx.choice(t + "s", [8, 16, 32, 64]), sx.choice(t + "a", ACC), sx.int(t + "v", 0, TOP)
    at = sx.pick(t + "at", ["dev", "per", "clu"])
    k = dict(size=s, access=a, reset_value=v)
    d = dev([per("P", 0, [clu("C", 0, [reg("R", 0)], **(k if at == "clu" else {}))], **(k if at == "per" else {}))], **(k if at == "dev" else {}))
    return d, lambda p: sx.eq([p.peripherals[0].registers[0].size, p.peripherals[0].registers[0].access, p.peripherals[0].registers[0].reset_value], [s, a, v])


def _derive(sx, t):
    o, v, w = sx.int(t + "o", 0, 99), sx.int(t + "v", 0, TOP), sx.int(t + "w", 0, TOP)
    to = sx.pick(t + "to", ["P.R", "P.S", "S"])
    d = dev([per("P", 0, [reg("R", 0x100, [fld("F", 0, 2)], reset_value=v), reg("S", 0x200, [fld("G", 4, 3)], reset_value=w), reg("T", o, derived_from=to)])])
    r = to == "P.R"
    return d, lambda p: sx.eq([[x.name, x.address_offset, x.reset_value, x.fields[0].name, x.fields[0].lsb] for x in p.peripherals[0].registers],
                              [["T", o, v if r else w, "F" if r else "G", 0 if r else 4], ["R", 0x100, v, "F", 0], ["S", 0x200, w, "G", 4]])


def _refused(sx, t):
    how = sx.pick(t + "how", ["name", "reference", "cycle", "dim", "bits"])
    rs = {"name": [reg("R", 0), reg("R", 8)], "reference": [reg("R", 0, derived_from="P.X")], "cycle": [reg("R", 0, derived_from="P.S"), reg("S", 4, derived_from="P.R")],
          "dim": [reg("R%s", 0, dim=3, dim_increment=4, dim_index="A-B")], "bits": [reg("R", 0, [fld("F", 0, 3), fld("G", 2, 3)])]}[how]
    return dev([per("P", 0, rs)]), None


MINI = {"list": _list, "array": _array, "enum": _enum, "field": _field, "inherit": _inherit, "derive": _derive, "refused": _refused}


def sequence(sx, kinds):
    """small descriptions one after the other (the first one once more at the end): each comes out as its values say"""
    todo = [MINI[k](sx, "abc"[i]) for i, k in enumerate(kinds)]
    for d, want in todo + todo[:1]:
        out = process(sx, d)
        sx.observe("outcome", out.kind)
        if want is None:
            sx.check(out.isa("ProcessException"), "an improper description is refused")
        elif expect_ok(sx, out) is not None:
            sx.check(want(out.value), "the result depends on the description only")
    sx.reach()


def documents(sx, n):
    """documents parsed one after the other: the same places with other contents"""
    from svdsuite.parse import Parser
    v = [[sx.int("v%d%d" % (i, j), 16, 255) for j in range(2)] for i in range(n)]
    bits = [sx.pick("w%d" % i, [4, 7]) for i in range(n)]
    ds = [dev([per("P", 0x1000, [reg("R", v[i][0], [fld("F", 0, bits[i])], reset_value=v[i][1])])]) for i in range(n)]
    texts = [Serializer.device_to_svd_content(d) for d in ds]
    for i in list(range(n)) + [0]:
        out = sx.run(lambda: Parser.from_xml_content(texts[i]).get_parsed_device())
        d = expect_ok(sx, out)
        if d is not None:
            r = d.peripherals[0].registers_clusters[0]
            sx.check(sx.eq([r.address_offset, r.reset_value, r.fields[0].bit_width], [v[i][0], v[i][1], bits[i]]), "the result depends on the document only")
        texts[i] = Serializer.device_to_svd_content(ds[i])
    sx.reach()
