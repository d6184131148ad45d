"""Child order and leaf formats the CMSIS-SVD schema 1.3.11 prescribes, read from the schema file (never instrumented)."""
import functools
import os
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
PATH = os.path.join(os.environ.get("SYMX_REPO", "/repo"), "src/svdsuite/schema/1.3.11.xsd")
NUMBER = "scaledNonNegativeInteger"


@functools.lru_cache(None)
def _schema():
    root = ET.parse(PATH).getroot()
    named = {}
    for e in root:
        if e.get("name"):
            named[(e.tag[len(XS):], e.get("name"))] = e
    return named


def _leaf(node):
    """('enum', [values]) | ('pattern', regex) | ('builtin', name) of a simpleType element"""
    r = node.find(XS + "restriction")
    enums = [x.get("value") for x in r.findall(XS + "enumeration")]
    if enums:
        return ("enum", enums)
    pats = [x.get("value") for x in r.findall(XS + "pattern")]
    if pats:
        return ("pattern", pats[0])
    return ("builtin", "string")


def _type(e):
    """description of an element's type: a leaf or ('complex', node)"""
    t = e.get("type")
    if t is None:
        c = e.find(XS + "complexType")
        return ("complex", c) if c is not None else _leaf(e.find(XS + "simpleType"))
    if t.startswith("xs:"):
        return ("builtin", t[3:])
    n = _schema()
    if ("complexType", t) in n:
        return ("complex", n[("complexType", t)])
    return _leaf(n[("simpleType", t)])


def _elements(node, out):
    for c in node:
        k = c.tag[len(XS):]
        if k == "element":
            out.append((c.get("name"), _type(c)))
        elif k == "group":
            _elements(_schema()[("group", c.get("ref"))], out)
        elif k in ("sequence", "choice"):
            _elements(c, out)
    return out


@functools.lru_cache(None)
def levels():
    """level -> (child tags in schema order, {tag or attribute: leaf format}); wrapper elements are levels, too"""
    out = {}

    def visit(name, t):
        if name in out or t[0] != "complex":
            return
        els = _elements(t[1], [])
        leaves = {n: x for n, x in els if x[0] != "complex"}
        for a in t[1].iter(XS + "attribute"):
            pass
        for a in t[1].findall(XS + "attribute"):
            leaves["@" + a.get("name")] = _type(a)
        out[name] = ([n for n, x in els], leaves)
        for n, x in els:
            visit(n, x)

    visit("device", _type(_schema()[("element", "device")]))
    return out


def position(level, tag):
    """rank of a child in the sequence of its parent; registers and clusters mix freely"""
    order = levels()[level][0]
    if tag not in order:
        return None
    if tag in ("register", "cluster") and level in ("registers", "cluster"):
        return len(order)
    return order.index(tag)


def leaf(level, tag):
    return levels()[level][1].get(tag)
