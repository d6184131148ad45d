"""C06: serialize and read again.  C07: order and formats of the written document."""
import os
import re
import tempfile

from oracle import xsd
from props.svdxml import *
from svdsuite.serialize import Serializer

XSI = "http://www.w3.org/2001/XMLSchema-instance"


def _write_and_read(how, model):
    if how == "str":
        return Parser.from_xml_str(Serializer.device_to_svd_str(model)).get_parsed_device()
    if how == "pretty":
        return Parser.from_xml_str(Serializer.device_to_svd_str(model, pretty_print=True)).get_parsed_device()
    if how == "content":
        return Parser.from_xml_content(Serializer.device_to_svd_content(model)).get_parsed_device()
    if how == "plain":
        return Parser.from_xml_content(Serializer.device_to_svd_content(model, True, False)).get_parsed_device()
    fd, path = tempfile.mkstemp(suffix=".svd")
    os.close(fd)
    try:
        Serializer.device_to_svd_file(path, model, how == "prettyfile")
        return Parser.from_svd_file(path).get_parsed_device()
    finally:
        os.unlink(path)


def _again(sx, how, model):
    out = sx.run(lambda: _write_and_read(how, model))
    d = expect_ok(sx, out, "a written description is read again")
    if d is not None:
        same_tree(sx, flat(d), flat(model), "round trip")
        sx.observe("name", d.name)
    return d


def _full(root):
    """a device with at least one peripheral"""
    if not [k for k in root.kids if k.level == "peripheral"]:
        root.add(plain_node("peripheral", "Z"))
    return root


def _model(root):
    m = root.model()
    m.xs_no_namespace_schema_location = "CMSIS-SVD.xsd"
    return m


def level(sx, level, gi, k, rest):
    """one level: presence of k optional elements free, the other ones all present or all absent, all values free"""
    group = options(level)[gi * k:gi * k + k]
    fixed = [t for t in options(level) if t not in group] if rest else []
    n = Node(level)
    fill(sx, n, level, optional=group, fixed=fixed)
    how = "content" if rest else "pretty"
    _again(sx, how, _model(_full(wrap(n))))
    sx.reach()


def bare(sx):
    """a device whose peripherals section is empty"""
    n = fill(sx, Node("device"), "device")
    _again(sx, "content", _model(n))
    sx.reach()


def header(sx):
    """schema location, schema version and the ways of writing"""
    m = _model(wrap(plain_node("register")))
    m.xs_no_namespace_schema_location = sx.text("loc", 0, 2, "aZ. /")
    v = sx.text("version", 1, 2, "0139.")
    m.schema_version = v
    sx.assume(sx.eq(m.xs_no_namespace_schema_location.strip(), m.xs_no_namespace_schema_location))
    how = sx.pick("how", ["str", "pretty", "content", "plain", "file", "prettyfile"])
    d = _again(sx, how, m)
    sx.reach()


def text(sx, level, lo, hi, n):
    """texts of every kind of characters at each text element"""
    slots = [s for s in LEVELS[level][2] + LEVELS[level][3] if s[2] in ("text", "free")]
    tag, attr, kind = sx.pick("tag", slots[lo:hi])
    node = plain_node(level)
    if kind == "free":
        t = sx.text("t", 1, n, "aZ0 \n\t<>&\"'%\u00e4\u20ac[]")
    else:
        t = sx.text("t", 1, n, "aZ0 <>&\"'%\u00e4\u20ac[],.-")
        sx.assume(sx.eq(t.strip(), t))
    node.put(tag, t, t)
    _again(sx, "content", _model(_full(wrap(node))))
    sx.reach()


def tree(sx, shape, how):
    dv = many(sx, shape)
    _again(sx, how, _model(dv))
    sx.reach()


def many(sx, shape, hi=None):
    """several children per container"""
    dv, p, q = plain_node("device"), plain_node("peripheral", "P"), plain_node("peripheral", "Q")
    dv.add(p, q)
    few = {"register": ["size", "resetValue"], "cluster": ["size", "access"], "field": ["bitOffset", "bitWidth"],
           "enumeratedValue": ["value", "description"], "enumeratedValues": ["usage"], "interrupt": ["description", "value"],
           "addressBlock": ["offset", "protection"], "region": ["enabled", "name"], "writeConstraint": [],
           "dimArrayIndex": ["headerEnumName"], "cpu": [], "sauRegionsConfig": ["enabled"]}
    cnt = {}

    def mk(level):
        cnt[level] = cnt.get(level, 0) + 1
        if hi is not None:
            return small(sx, Node(level), level + str(cnt[level]), (), few[level])
        return fill(sx, Node(level), level + str(cnt[level]), fixed=few[level])

    if shape == "registers":
        c = mk("cluster").add(mk("register"), mk("cluster").add(mk("register")), mk("register"))
        p.add(mk("register"), c, mk("register"))
        q.add(mk("cluster"), mk("register"))
    elif shape == "fields":
        e1, e2 = mk("enumeratedValues"), mk("enumeratedValues")
        e1.add(mk("enumeratedValue"), mk("enumeratedValue"))
        e2.add(mk("enumeratedValue"))
        p.add(mk("register").add(mk("field").add(e1, e2), mk("field")))
        q.add(mk("register").add(mk("field")))
    elif shape == "blocks":
        p.add(mk("addressBlock"), mk("addressBlock"), mk("interrupt"), mk("interrupt"), mk("register"))
        q.add(mk("addressBlock"), mk("interrupt"))
    elif shape == "cpu":
        dv.kids.insert(0, mk("cpu").add(mk("sauRegionsConfig").add(mk("region"), mk("region"))))
    elif shape == "constraints":
        w = mk("writeConstraint")
        w.kids.append(Range(value(sx, "int", "lo", hi or 2**64 - 1), value(sx, "int", "hi", hi or 2**64 - 1)))
        f = mk("field")
        f.add(fill(sx, Node("writeConstraint"), "w", fixed=["writeAsRead", "useEnumeratedValues"]))
        f.add(mk("dimArrayIndex").add(mk("enumeratedValue")))
        r = mk("register").add(w, mk("dimArrayIndex").add(mk("enumeratedValue"), mk("enumeratedValue")), f)
        p.add(r, mk("cluster").add(mk("dimArrayIndex").add(mk("enumeratedValue"))))
        p.add(mk("dimArrayIndex").add(mk("enumeratedValue")))
    elif shape == "empty":
        # containers and configurations without content
        dv.kids.insert(0, mk("cpu").add(Node("sauRegionsConfig")))
        p.add(mk("cluster"), mk("register").add(Node("writeConstraint"), Node("dimArrayIndex")))
        q.add(mk("register").add(mk("field").add(Node("enumeratedValues"), Node("writeConstraint"))))
    return dv


def crowd(sx, parent, child, n, how):
    """many children of one kind in one container, one of them with content of its own"""
    _again(sx, how, _model(_full(crowded(sx, parent, child, n))))
    sx.reach()


# ---------------------------------------------------------------------------------------------------------------- C07
def _expected(node):
    """tag of each child the document must have, in schema order"""
    tags = [t for t, a, k in node.elements if t in node.values or (node.level, t) in (("interrupt", "value"), ("addressBlock", "offset"))]
    for k in node.kids:
        w = "range" if k.level == "range" else CHILD[(node.level, k.level)][2] or k.level
        if w not in ("registers", "fields", "peripherals") or w not in tags:
            tags.append(w)
    return tags


def _ordered(level, tags):
    """the same tags sorted by the schema; registers and clusters of a container stay in the given order"""
    ranks = [xsd.position(level, t) for t in tags]
    if None in ranks:
        return None
    return [tags[i] for i in sorted(range(len(tags)), key=lambda i: (ranks[i], i))]


def _number(sx, text):
    return re.fullmatch(r"[+]?(0x|0X|#)?[0-9a-fA-F]+[kmgtKMGT]?", text) is not None


def _leaf_ok(sx, level, tag, text):
    kind, arg = xsd.leaf(level, tag)
    if kind == "enum":
        return sx.isin(text, arg)
    if kind == "builtin" and arg == "boolean":
        return sx.isin(text, ["true", "false", "0", "1"])
    if kind == "builtin" and arg == "integer":
        return re.fullmatch(r"[+-]?[0-9]+", text) is not None
    if kind == "pattern" and arg == "[snp]":
        return sx.isin(text, ["s", "n", "p"])
    if kind == "pattern" and arg == "[cn]":
        return sx.isin(text, ["c", "n"])
    if kind == "pattern" and "0x|0X|#" in arg and "kmgt" in arg:
        return _number(sx, text)
    return True


def _conforms(sx, e, node):
    """element e of the written document against the schema and the content that was given"""
    level = node.level
    tags = [c.tag for c in e]
    sx.check(e.tag == level, "element name")
    sx.check(tags == _ordered(level, _expected(node)), "children of " + level + " in schema order")
    for t, a, k in node.elements:
        if t in node.values:
            c = e.find(t)
            if c is not None and k not in ("text", "free"):
                sx.check(_leaf_ok(sx, level, t, c.text), "format of " + level + "/" + t)
    for t, a, k in node.attributes:
        sx.check((e.get(t) is not None) == (t in node.values), "attribute " + level + "@" + t)
        if e.get(t) is not None and k not in ("text", "free"):
            sx.check(_leaf_ok(sx, level, "@" + t, e.get(t)), "format of " + level + "@" + t)
    sx.check(len([a for a in e.attrib if a.startswith("{")]) == (1 if level == "device" else 0), "no other attributes")
    pos = {}
    for k in node.kids:
        if k.level == "range":
            r = e.find("range")
            sx.check([c.tag for c in r] == ["minimum", "maximum"], "children of range in schema order")
            for c in r:
                sx.check(_number(sx, c.text), "format of range/" + c.tag)
            continue
        w = CHILD[(level, k.level)][2]
        up = e if w is None else e.find(w)
        if w is not None:
            same = [x for x in node.kids if x.level != "range" and CHILD[(level, x.level)][2] == w]
            sx.check([c.tag for c in up] == [x.level for x in same], "children of " + w)
            i = pos.get(w, 0)
            pos[w] = i + 1
            if i < len(up):
                _conforms(sx, up[i], k)
        else:
            i = pos.get(k.level, 0)
            pos[k.level] = i + 1
            cs = up.findall(k.level)
            if i < len(cs):
                _conforms(sx, cs[i], k)


def _write(sx, root):
    out = sx.run(lambda: ET.fromstring(Serializer.device_to_svd_content(_model(root))))
    e = expect_ok(sx, out, "a description is written")
    if e is not None:
        _conforms(sx, e, root)
        sx.check(e.get("{" + XSI + "}noNamespaceSchemaLocation") == "CMSIS-SVD.xsd", "schema location")
        sx.check(e.get("schemaVersion") == "1.3", "schema version")
    sx.reach()


EXCLUSIVE = {"field": [["bitOffset", "bitWidth"], ["lsb", "msb"], ["bitRange"]],
             "register": [["alternateGroup"], ["alternateRegister"]], "enumeratedValue": [["value"], ["isDefault"]],
             "writeConstraint": [["writeAsRead"], ["useEnumeratedValues"]]}


def order(sx, level, gi, k, rest):
    """one level: presence of k optional elements free, the other ones all present or all absent; nested children, too"""
    group = options(level)[gi * k:gi * k + k]
    fixed = [t for t in options(level) if t not in group] if rest else []
    alts = EXCLUSIVE.get(level)
    if alts:
        keep = sx.pick("alternative", alts)
        group = [t for t in group if t in keep or not any(t in a for a in alts)]
        fixed = [t for t in fixed if t in keep or not any(t in a for a in alts)]
    n = small(sx, Node(level), level, optional=group, fixed=fixed)
    kids = [b for (a, b) in CHILD if a == level and b not in ("cpu", "peripheral")]
    if rest:
        kids.reverse()
    present = sx.pick("with", [[]] + [[b] for b in kids] + [kids])
    for b in kids:
        if b in present:
            n.add(plain_node(b))
            if CHILD[(level, b)][1]:
                n.add(plain_node(b))
    if level == "device" and rest:
        n.add(plain_node("cpu"))
    _write(sx, _full(wrap(n)))


def small(sx, node, name, optional, fixed):
    """content with fixed numbers and texts (their formats: numbers, text)"""
    for tag, attr, kind in node.attributes + node.elements:
        if tag in node.mandatory or tag in fixed or (tag in optional and sx.pick(name + "." + tag + "?", [False, True])):
            if kind in ("text", "free"):
                node.put(tag, "T", "T")
            elif kind in ("int", "hex"):
                node.put(tag, "7", 7)
            else:
                m = [x for x in kind if x.name != "ANY"] if kind is ProtectionStringType else kind
                node.put(tag, *value(sx, m, name + "." + tag, 9))
    return node


def schema_tree(sx, shape):
    _write(sx, many(sx, shape, 9))


def order_crowd(sx, parent, child, n):
    """many children of one kind in one container: all in their place, in order"""
    def content(node, name):
        drop = [t for a in EXCLUSIVE.get(node.level, [])[1:] for t in a]
        return small(sx, node, name, (), [t for t in options(node.level) if t not in drop])

    _write(sx, _full(crowded(sx, parent, child, n, content)))


def numbers(sx, lo, hi, bits):
    """every value of a number at each numeric element is written in a form the schema accepts and denotes it"""
    level, tag, attr = sx.pick("where", numeric_slots()[lo:hi])
    v = sx.int("v", 0, 2 ** bits - 1)
    if level == "range":
        n = Node("writeConstraint")
        n.kids.append(Range(("0", v if tag == "minimum" else 0), ("0", v if tag == "maximum" else 0)))
    else:
        n = plain_node(level)
        n.put(tag, "0", v)
    out = sx.run(lambda: ET.fromstring(Serializer.device_to_svd_content(_model(_full(wrap(n))))))
    e = expect_ok(sx, out, "a description is written")
    if e is not None:
        x = [c for c in (e.iter(level) if level != "device" else [e])][0].find(tag)
        t = x.text
        if level == "interrupt":
            sx.check(re.fullmatch(r"[+-]?[0-9]+", t) is not None, "a number is written as the schema requires")
        else:
            sx.check(_number(sx, t), "a number is written as the schema requires")
        if re.fullmatch(r"0[xX][0-9a-fA-F]+", t):
            sx.check(sx.eq(sx.parse(t[2:], 16), v), "a written number denotes its value")
        else:
            sx.check(re.fullmatch(r"[0-9]+", t) is not None, "a written number denotes its value")
            sx.check(sx.eq(sx.parse(t, 10), v), "a written number denotes its value")
    sx.reach()
