"""C05: reading does not depend on how a document is handed over.  C33: schema validation.

lxml itself (XML decoding, schema evaluation) is trusted; where the property is about which attempt or schema decides, lxml's
entry points are replaced by stand-ins with a free success pattern."""
import os
import tempfile

import lxml.etree
import svdsuite.validate as validate_module
from props.svdxml import *
from svdsuite.validate import SVDSchemaVersion, Validator

ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
ATTEMPTS = [(None, False)] + [(e, False) for e in ENCODINGS] + [(e, True) for e in ENCODINGS]
REAL = {k: getattr(lxml.etree, k) for k in ("XMLParser", "parse", "fromstring", "XMLSchema")}


class Attempt:
    def __init__(self, encoding=None, recover=False, **k):
        self.key = (encoding, bool(recover))


class Stage:
    """Stand-in for lxml's readers: every attempt succeeds or fails freely, and is recorded."""

    def __init__(self, sx, good):
        self.sx, self.good, self.tried, self.errors = sx, good, [], []
        self.sources = []
        self.fails = {}

    def read(self, source, parser=None, result=None):
        key = parser.key if parser is not None else (None, False)
        self.tried.append(key)
        self.sources.append(source)
        if key not in self.fails:
            self.fails[key] = self.sx.pick("fails %s %s" % (key[0], key[1]), [False, True])
        if self.fails[key]:
            e = lxml.etree.XMLSyntaxError("attempt %d" % len(self.tried), 1, 1, 1)
            self.errors.append(e)
            raise e
        return result

    def parse(self, source, parser=None, **k):
        return self.read(source, parser, self.good)

    def fromstring(self, text, parser=None, **k):
        return self.read(text, parser, self.good.getroot())


def swap(**names):
    for k in names:
        setattr(lxml.etree, k, names[k])


def attempts(sx, entry):
    """every pattern of failing attempts"""
    node = wrap(fill(sx, Node("register"), "r"))
    x = node.xml()
    x.set("schemaVersion", "1.3")
    x.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", "CMSIS-SVD.xsd")
    st = Stage(sx, ET.ElementTree(x))
    swap(XMLParser=Attempt, parse=st.parse, fromstring=st.fromstring)
    try:
        if entry == "file":
            out = sx.run(lambda: Parser.from_svd_file("some.svd").get_parsed_device())
        elif entry == "content":
            out = sx.run(lambda: Parser.from_xml_content(b"<some/>").get_parsed_device())
        elif entry == "str":
            out = sx.run(lambda: Parser.from_xml_str("<some/>").get_parsed_device())
        elif entry == "validate_file":
            out = sx.run(lambda: Validator.validate_xml_file("some.svd"))
        else:
            out = sx.run(lambda: Validator.validate_xml_content(b"<some/>"))
    finally:
        swap(**REAL)
    if not st.tried:
        sx.observe("unused", True)
        sx.reach()
        return
    # the stand-in of the validator also reads the schema through the same functions
    first = [k for k in ATTEMPTS if not st.fails.get(k, False)]
    own = [i for i in range(len(st.tried)) if st.sources[i] in ("some.svd", b"<some/>")]
    tried = [st.tried[i] for i in own]
    sx.observe("tried", [str(k) for k in tried])
    if first:
        n = ATTEMPTS.index(first[0])
        sx.check(tried == ATTEMPTS[:n + 1], "attempts are made in order and end with the first success")
        if entry in ("file", "content", "str"):
            d = expect_ok(sx, out, "the first successful attempt decides")
            if d is not None:
                want = node.model()
                want.xs_no_namespace_schema_location = "CMSIS-SVD.xsd"
                same_tree(sx, flat(d), flat(want), "result of the attempt")
                if n:
                    sx.check(warned(sx, out, first[0][0], "recover=" + str(first[0][1])), "a fallback is reported")
                else:
                    sx.check(quiet(sx, out), "no fallback, no report")
    else:
        sx.check(tried == ATTEMPTS, "all attempts are made")
        sx.check(out.isa("XMLSyntaxError"), "the reading error is raised")
        sx.check(out.exc is st.errors[0], "the error is the one of the plain attempt")
    sx.reach()


def missing(sx):
    """a file which is not there is an error of the operating system, not an empty description"""
    out = sx.run(lambda: Parser.from_svd_file("/nonexistent/" + sx.pick("name", ["a.svd", "b"])).get_parsed_device())
    sx.check(out.isa("OSError"), "a missing file is reported")
    sx.reach()


KINDS = ["file", "str", "content", "bom content", "bom file", "utf-16 content", "utf-16 file", "no declaration", "xs", "xsi"]


def kinds(sx, level):
    """the same document through every way of reading"""
    node = wrap(fill(sx, Node(level), level, fixed=[t for t in options(level)][:8]))
    x = node.xml()
    x.set("schemaVersion", "1.3")
    x.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", "CMSIS-SVD.xsd")
    kind = sx.pick("kind", KINDS)
    if kind in ("xs", "xsi"):
        y = ET.Element("device", nsmap={kind: "http://www.w3.org/2001/XMLSchema-instance"})
        for k in list(x.attrib):
            y.set(k, x.get(k))
        for c in list(x):
            y.append(c)
        x = y
    data = ET.tostring(x, encoding="utf-16" if "utf-16" in kind else "utf-8", xml_declaration=kind != "no declaration")
    if "bom" in kind:
        data = b"\xef\xbb\xbf" + data
    if kind == "str":
        out = sx.run(lambda: Parser.from_xml_str(data.decode("utf-8")).get_parsed_device())
    elif "file" in kind:
        fd, path = tempfile.mkstemp(suffix=".svd")
        os.write(fd, data)
        os.close(fd)
        try:
            out = sx.run(lambda: Parser.from_svd_file(path).get_parsed_device())
        finally:
            os.unlink(path)
    else:
        out = sx.run(lambda: Parser.from_xml_content(data).get_parsed_device())
    d = expect_ok(sx, out, "the document is read")
    if d is not None:
        want = node.model()
        want.xs_no_namespace_schema_location = "CMSIS-SVD.xsd"
        same_tree(sx, flat(d), flat(want), "result")
    sx.reach()


# ---------------------------------------------------------------------------------------------------------------- C33
VERSIONS = ["1.0", "1.1", "1.2", "1.3.1", "1.3.2", "1.3.3", "1.3.4", "1.3.5", "1.3.6", "1.3.7", "1.3.8", "1.3.9", "1.3.10",
            "1.3.11"]
SCHEMAS = os.path.join(os.path.dirname(validate_module.__file__), "schema")


class Verdict:
    """Stand-in for lxml's schema: remembers which schema it was made of and what it was asked, answers freely."""

    made = []
    valid = None

    def __init__(self, etree=None, file=None, **k):
        self.real = REAL["XMLSchema"](etree) if file is None else REAL["XMLSchema"](file=file)
        self.text = _canonical(etree if file is None else REAL["parse"](file))
        self.asked = []
        Verdict.made.append(self)

    def validate(self, doc):
        self.asked.append(doc)
        return Verdict.valid

    def __call__(self, doc):
        return self.validate(doc)

    def assertValid(self, doc):
        if not self.validate(doc):
            raise lxml.etree.DocumentInvalid("not valid")

    @property
    def error_log(self):
        return []


def _canonical(tree):
    r = tree.getroot() if hasattr(tree, "getroot") else tree
    return ET.tostring(r, method="c14n")


def verdict(sx, entry):
    """every version, every verdict, every way of asking"""
    version = sx.pick("version", [None] + VERSIONS)
    Verdict.made = []
    Verdict.valid = sx.bool("valid")
    name = sx.pick("device", ["A", "B"])
    data = b"<?xml version='1.0' encoding='utf-8'?><device schemaVersion='1.1'><name>" + name.encode() + b"</name></device>"
    k = {}
    if version is not None:
        k["schema_version"] = SVDSchemaVersion(version)
    how = sx.pick("get_exception", [None, True, False])
    if how is not None:
        k["get_exception"] = how
    path = None
    swap(XMLSchema=Verdict)
    try:
        if entry == "file":
            fd, path = tempfile.mkstemp(suffix=".svd")
            os.write(fd, data)
            os.close(fd)
            out = sx.run(lambda: Validator.validate_xml_file(path, **k))
        elif entry == "content":
            out = sx.run(lambda: Validator.validate_xml_content(data, **k))
        else:
            out = sx.run(lambda: Validator.validate_xml_str(data.decode(), **k))
    finally:
        swap(**REAL)
        if path is not None:
            os.unlink(path)
    sx.observe("outcome", out.kind)
    if not Verdict.made:
        sx.reach()
        return
    want = _canonical(REAL["parse"](os.path.join(SCHEMAS, (version or "1.3.11") + ".xsd")))
    for v in Verdict.made:
        sx.check(v.text == want, "the schema of the requested (by default the latest) version decides")
        sx.check(len(v.asked) > 0, "the schema is asked")
        for doc in v.asked:
            r = doc.getroot() if hasattr(doc, "getroot") else doc
            sx.check(r.tag == "device" and r.findtext("name") == name, "the document is judged as a whole")
    if how is False:
        sx.check(out.ok, "the verdict is returned")
        if out.ok:
            sx.check(sx.eq(out.value, Verdict.valid), "the verdict is the one of the schema")
    else:
        sx.check(sx.eq(out.ok, Verdict.valid), "a valid document is accepted, the error of an invalid one is raised")
        if out.ok:
            sx.check(sx.eq(out.value, True), "a valid document is accepted")
        else:
            sx.check(out.isa("DocumentInvalid"), "the error is the one of the schema")
    sx.reach()



def twice(sx, entry):
    """a second validation in the same process: other document, other version, other verdict"""
    path = None
    Verdict.made = []
    swap(XMLSchema=Verdict)
    try:
        for i in range(2):
            version = sx.pick("version%d" % i, [None, "1.1", "1.3.1", "1.3.9", "1.3.11"])
            Verdict.valid = sx.bool("valid%d" % i)
            before = {id(v): len(v.asked) for v in Verdict.made}
            name = "AB"[i]
            data = b"<?xml version='1.0' encoding='utf-8'?><device schemaVersion='1.1'><name>" + name.encode() + b"</name></device>"
            k = {"get_exception": False, **({} if version is None else {"schema_version": SVDSchemaVersion(version)})}
            if entry == "file":
                if path is None:
                    fd, path = tempfile.mkstemp(suffix=".svd")
                    os.close(fd)
                with open(path, "wb") as f:
                    f.write(data)
                out = sx.run(lambda: Validator.validate_xml_file(path, **k))
            elif entry == "content":
                out = sx.run(lambda: Validator.validate_xml_content(data, **k))
            else:
                out = sx.run(lambda: Validator.validate_xml_str(data.decode(), **k))
            sx.observe("outcome", out.kind)
            sx.check(out.ok, "the verdict is returned")
            if not out.ok:
                return
            sx.check(sx.eq(out.value, Verdict.valid), "the verdict is the one of the schema")
            want = _canonical(REAL["parse"](os.path.join(SCHEMAS, (version or "1.3.11") + ".xsd")))
            for v in Verdict.made:
                new = v.asked[before.get(id(v), 0):]
                sx.check(not new or v.text == want, "the schema of the requested (by default the latest) version decides")
                for doc in new:
                    r = doc.getroot() if hasattr(doc, "getroot") else doc
                    sx.check(r.findtext("name") == name, "the document at hand is judged")
    finally:
        swap(**REAL)
        if path is not None:
            os.unlink(path)
    sx.reach()


def again(sx, how):
    """the same place read twice, the document having changed in between"""
    docs = [wrap(fill(sx, Node("register"), "r%d" % i, fixed=[t for t in options("register")][:6])) for i in range(2)]
    path = None
    try:
        for i in range(2):
            x = docs[i].xml()
            x.set("schemaVersion", "1.3")
            x.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", "CMSIS-SVD.xsd")
            data = ET.tostring(x, encoding="utf-8", xml_declaration=True)
            if how == "file":
                if path is None:
                    fd, path = tempfile.mkstemp(suffix=".svd")
                    os.close(fd)
                with open(path, "wb") as f:
                    f.write(data)
                out = sx.run(lambda: Parser.from_svd_file(path).get_parsed_device())
            elif how == "str":
                out = sx.run(lambda: Parser.from_xml_str(data.decode()).get_parsed_device())
            else:
                out = sx.run(lambda: Parser.from_xml_content(data).get_parsed_device())
            d = expect_ok(sx, out, "the document is read")
            if d is None:
                return
            want = docs[i].model()
            want.xs_no_namespace_schema_location = d.xs_no_namespace_schema_location
            same_tree(sx, flat(d), flat(want), "result")
    finally:
        if path is not None:
            os.unlink(path)
    sx.reach()
