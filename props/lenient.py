"""C04: repeated elements, surrounding whitespace and split containers never change the meaning."""
from props.svdxml import *

WS = " \t\n"


def _text_and_value(sx, kind, name, hi=2**32 - 1):
    t, v = value(sx, kind, name, hi)
    return t, v


def base(level):
    """A plain node without anything worth a report."""
    n = plain_node(level)
    if level == "interrupt":
        n.put("value", "3", 3)
    if level == "addressBlock":
        n.put("offset", "0x10", 16)
    return n


def _kinds(level):
    return LEVELS[level][2]


def _check_all(sx, out, root, label):
    d = expect_ok(sx, out, label)
    if d is None:
        return None
    want = root.model()
    want.xs_no_namespace_schema_location = "CMSIS-SVD.xsd"
    same_tree(sx, flat(d), flat(want), label)
    return d


def repeated(sx, level, lo, hi, n):
    """an element occurring n times, each with its own free value, at both ends of its parent: the last one counts"""
    tag, attr, kind = sx.pick("tag", _kinds(level)[lo:hi])
    vals = [_text_and_value(sx, kind, "v" + str(i)) for i in range(n)]
    node = base(level)
    node.values.pop(tag, None)
    root = wrap(node)
    x = root.xml()
    e = x if level == "device" else [i for i in x.iter(level)][0]
    front = sx.pick("front", list(range(n + 1)) if n < 4 else [0, n // 2, n])
    for i in range(front):
        c = ET.Element(tag)
        c.text = vals[i][0]
        e.insert(i, c)
    for i in range(front, n):
        sub(e, tag, vals[i][0])
    node.put(tag, *vals[n - 1])
    out = parse(sx, x)
    sx.observe("outcome", out.kind)
    d = _check_all(sx, out, root, "the last of several elements counts")
    if d is not None:
        sx.check(warned(sx, out, tag), "repeated elements are reported")
    sx.reach()


def blank(sx, level, lo, hi):
    """the last occurrence without text: an optional element counts as not given, a mandatory one is refused"""
    tag, attr, kind = sx.pick("tag", _kinds(level)[lo:hi])
    node = base(level)
    node.values.pop(tag, None)
    root = wrap(node)
    x = root.xml()
    e = x if level == "device" else [i for i in x.iter(level)][0]
    if sx.pick("first", [False, True]):
        sub(e, tag, _text_and_value(sx, kind, "v")[0])
    ET.SubElement(e, tag)
    out = parse(sx, x)
    sx.observe("outcome", out.kind)
    if level == "device" and tag == "description":
        node.put(tag, "", "")
    if tag in node.mandatory and not (level == "device" and tag == "description"):
        sx.check(out.isa("ParserException"), "an empty mandatory element is refused")
    else:
        _check_all(sx, out, root, "an empty optional element counts as not given")
    sx.reach()


def padded(sx, level, lo, hi, n):
    """up to n whitespace characters on both sides of an element's text or an attribute"""
    slots = LEVELS[level][2] + LEVELS[level][3]
    tag, attr, kind = sx.pick("tag", slots[lo:hi])
    pre, post = sx.text("pre", 0, n, WS), sx.text("post", 0, n, WS)
    t, v = _text_and_value(sx, kind, "v")
    node = base(level)
    if kind == "free":
        node.put(tag, pre + t + post, pre + t + post)
    elif kind == "text":
        c = sx.text("c", 1, 1, "aZ9_")
        node.put(tag, pre + c + t + c + post, c + t + c)
    else:
        node.put(tag, pre + t + post, v)
    root = wrap(node)
    out = parse(sx, root)
    sx.observe("outcome", out.kind)
    d = _check_all(sx, out, root, "surrounding whitespace does not change the value")
    if d is not None:
        pad = len(pre) + len(post) > 0 and kind != "free"
        sx.check(sx.eq(warned(sx, out, tag, "strip"), pad) if pad else quiet(sx, out), "exactly dropped whitespace is reported")
    sx.reach()


def inner(sx, level, lo, hi):
    """whitespace inside a text is part of it"""
    slots = [s for s in LEVELS[level][2] + LEVELS[level][3] if s[2] == "text"]
    tag, attr, kind = sx.pick("tag", slots[lo:hi])
    t = sx.text("a", 1, 1, "aZ9") + sx.text("w", 1, 2, " \t\n") + sx.text("b", 1, 1, "aZ9")
    node = base(level)
    node.put(tag, t, t)
    root = wrap(node)
    out = parse(sx, root)
    if _check_all(sx, out, root, "inner whitespace is kept") is not None:
        sx.check(quiet(sx, out), "nothing to report")
    sx.reach()


def split(sx, what):
    """several registers / fields containers are read as one, in document order"""
    dv, p = plain_node("device"), plain_node("peripheral", "P")
    dv.add(p)
    n = 4
    if what == "registers":
        kids = [fill(sx, Node("cluster" if i == 1 else "register"), "k" + str(i)) for i in range(n)]
        p.add(*kids)
        x = dv.xml()
        old = [e for e in x.iter("registers")][0]
        up = old.getparent()
        tag = "registers"
    else:
        r = plain_node("register", "R")
        kids = [fill(sx, Node("field"), "k" + str(i), fixed=["bitOffset"]) for i in range(n)]
        r.add(*kids)
        p.add(r)
        x = dv.xml()
        old = [e for e in x.iter("fields")][0]
        up = old.getparent()
        tag = "fields"
    items = list(old)
    up.remove(old)
    for i in range(n):
        if i == 0 or sx.pick("cut" + str(i), [False, True]):
            c = ET.SubElement(up, tag)
        c.append(items[i])
        if i < n - 1 and sx.pick("gap" + str(i), [False, True]) and i == 1:
            ET.SubElement(up, tag)
    out = parse(sx, x)
    _check_all(sx, out, dv, "several containers are read as one")
    sx.reach()


def comments(sx, level, lo, hi):
    """comments and processing instructions inside a text and between elements have no influence"""
    tag, attr, kind = sx.pick("tag", _kinds(level)[lo:hi])
    make = sx.pick("make", [lambda: ET.Comment("n 1"), lambda: ET.ProcessingInstruction("x", "1")])
    if kind in ("int", "hex"):
        p, q = sx.int("p", 1, 9), sx.int("q", 0, 9)
        a, b, v = sx.num(p), sx.num(q), 10 * p + q
    elif kind in ("text", "free"):
        a, b = sx.text("a", 1, 2, "aZ"), sx.text("b", 1, 2, "aZ")
        v = a + b
    else:
        a, v = _text_and_value(sx, kind, "v")
        b = None
    parts = sx.pick("parts", [[None, a, b], [a, b, None], [None, a + b, None], [a, None, None, None, None, b], [None, None, None, a, b]]
                    if b is not None else [[None, a], [a, None], [None, None, None, None, a]])
    node = base(level)
    node.put(tag, "x", v)
    root = wrap(node)
    x = root.xml()
    e = x if level == "device" else [i for i in x.iter(level)][0]
    for i in list(x.iter()):
        if len(i):
            i.insert(0, make())
            i.append(make())
    c = [i for i in e if i.tag == tag][0]
    c.text = parts[0]
    for t in parts[1:]:
        n = make()
        if t is not None:
            n.tail = t
        c.append(n)
    out = parse(sx, x)
    sx.observe("outcome", out.kind)
    _check_all(sx, out, root, "comments have no influence")
    sx.reach()
