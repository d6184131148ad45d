"""The resolver log: asking for it changes nothing, and it tells what was done."""
import base64
import gzip
import os
import re
import shutil
import tempfile

import rustworkx.visualization
import svdsuite.resolve.graph as _graph

from props import rich
from props.common import *


def _draw(graph, node_attr_fn=None, edge_attr_fn=None, graph_attr=None, filename=None, image_type=None, method=None):
    """Stands for graphviz (an external program): asks for the attributes of every node and edge, writes a picture."""
    attrs = [node_attr_fn(n) for n in graph.nodes()] if node_attr_fn else []
    attrs += [edge_attr_fn(e) for e in graph.edges()] if edge_attr_fn else []
    for a in attrs:
        for k, v in a.items():
            if not isinstance(k, str) or not isinstance(v, str):
                raise TypeError("attributes of nodes and edges are texts")
    if filename is not None:
        with open(filename, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0"?><svg xmlns="http://www.w3.org/2000/svg"><g/></svg>')


class _StandIn:
    def __enter__(self):
        self.old = [(m, m.graphviz_draw) for m in (rustworkx.visualization, _graph) if hasattr(m, "graphviz_draw")]
        for m, _ in self.old:
            m.graphviz_draw = _draw

    def __exit__(self, *_):
        for m, f in self.old:
            m.graphviz_draw = f


def _reports(sx, out):
    n = 0
    for w in out.warns:
        n = n + sx.ite(w[2], 1, 0)
    return n


def _both(sx, d):
    """compares the outcome without and with a log; gives the log's text where the description is accepted"""
    where = tempfile.mkdtemp()
    try:
        path = os.path.join(where, "log.html")
        a = sx.run(lambda: Process(d, None))
        with _StandIn():
            b = sx.run(lambda: Process(d, path))
        sx.observe("outcome", a.kind)
        sx.check(sx.eq(a.kind, b.kind), "same outcome")
        sx.check(sx.eq(_reports(sx, a), _reports(sx, b)), "as many reports")
        sx.check(os.path.exists(path), "the log is written")
        if a.ok and b.ok:
            same_tree(sx, flat(b.value.get_processed_device()), flat(a.value.get_processed_device()), "result with a log")
        if not os.path.exists(path):
            return None
        with open(path, encoding="utf-8") as f:
            page = f.read()
        text = ""
        for m in re.findall(r"[A-Za-z0-9+/]{40,}={0,2}", page):
            try:
                text += gzip.decompress(base64.b64decode(m)).decode()
            except Exception:
                continue
        sx.check("<h1>" in text, "the log can be unpacked")
        return text if a.ok else None
    finally:
        shutil.rmtree(where, ignore_errors=True)


def same(sx, shape):
    d = rich.build(sx, shape)
    if shape == "enums":  # the names of everything stand in the log, which is compressed: they are fixed here
        d.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].name = "NAMED"
    _both(sx, d)
    sx.reach()


def graph(sx, kind):
    """chains and trees of references, sound or not: every element worked on and every reference resolved is in the log"""
    n = 5
    at = [sx.int("a%d" % i, 0, 0xFFF) for i in range(n)]
    order = sx.pick("order", ["up", "down", "mixed"])
    idx = {"up": [0, 1, 2, 3, 4], "down": [4, 3, 2, 1, 0], "mixed": [2, 0, 4, 1, 3]}[order]
    if kind == "chain":
        ref = [None] + [sx.pick("r%d" % i, [None, 0, i - 1]) for i in range(1, n)]
        refs = [None if r is None else "EL_%d" % r for r in ref]
    elif kind == "broken":
        k = sx.pick("k", [1, 3])
        refs = [None] * n
        how = sx.pick("how", ["missing", "itself", "circle", "twice"])
        refs[k] = {"missing": "NOWHERE", "itself": "EL_%d" % k, "circle": "EL_0", "twice": "EL_2"}[how]
        if how == "circle":
            refs[0] = "EL_%d" % k
    else:
        refs = [None, "EL_0", None, "EL_2", "EL_3"]
    if kind == "nested":
        # what is derived brings pending references of its own: more than one round
        rs = [reg("EL_%d" % i, 0x1000 * i + at[i], derived_from=refs[i]) for i in idx]
        far = sx.pick("far", ["A.EL_0", "A.C.EL_1"])
        c = clu("C", 0x10000, [reg("EL_1", 0), reg("LATE", 8, derived_from=far)])
        d = dev([per("B", 0x100000, [reg("OWN", 0x40000, derived_from="A.C.LATE")], derived_from="A"), per("A", 0, rs + [c])])
        names = ["A", "B", "C", "LATE", "OWN"]
        refs = refs + [far, "A", "A.C.LATE"]
    else:
        level = sx.pick("level", ["per", "reg", "fld"])
        if level == "per":
            d = dev([per("EL_%d" % i, 0x10000 * i + at[i], [reg("R", 0)] if refs[i] is None else [], ab=None if refs[i] else 0x100, derived_from=refs[i]) for i in idx])
            names = []
        elif level == "reg":
            rs = [reg("EL_%d" % i, 0x1000 * i + at[i], derived_from=refs[i]) for i in idx]
            if kind == "broken" and refs[k] == "EL_2":
                rs.append(reg("EL_2", 0x10000))
            d = dev([per("P", 0, rs)])
            names = ["P"]
        else:
            fs = [fld("EL_%d" % i, 4 * i, 2, derived_from=refs[i]) for i in idx]
            d = dev([per("P", 0, [reg("R", at[0], fs)])])
            names = ["P", "R"]
    text = _both(sx, d)
    if text is not None:
        for x in names + ["EL_%d" % i for i in range(n)]:
            sx.check(re.search(r"\b" + x + r" \(", text) is not None or re.search(r">[^<]*\b" + x + r"\b[^<]*<", text) is not None,
                     "every element is in the log")
        for r in refs:
            if r is not None:
                sx.check(r in text, "every resolved reference is in the log")
    sx.reach()
