"""The CMSIS-SVD elements (tag, model attribute, kind) per level, and generators for documents and models of them."""
import lxml.etree as ET

from props.common import *
from svdsuite.parse import Parser

DIM = [("dim", "dim", "int"), ("dimIncrement", "dim_increment", "int"), ("dimIndex", "dim_index", "text"),
       ("dimName", "dim_name", "text")]
PROPS = [("size", "size", "int"), ("access", "access", AccessType), ("protection", "protection", ProtectionStringType),
         ("resetValue", "reset_value", "hex"), ("resetMask", "reset_mask", "hex")]
# per level: class, mandatory elements, optional elements, attributes; in the order of the format
LEVELS = {
    "device": (SVDDevice, ["name", "version", "description", "addressUnitBits", "width"],
               [("vendor", "vendor", "text"), ("vendorID", "vendor_id", "text"), ("name", "name", "text"),
                ("series", "series", "text"), ("version", "version", "text"), ("description", "description", "free"),
                ("licenseText", "license_text", "free"), ("headerSystemFilename", "header_system_filename", "text"),
                ("headerDefinitionsPrefix", "header_definitions_prefix", "text"),
                ("addressUnitBits", "address_unit_bits", "int"), ("width", "width", "int")] + PROPS, []),
    "cpu": (SVDCPU, ["name", "revision", "endian", "nvicPrioBits", "vendorSystickConfig"],
            [("name", "name", CPUNameType), ("revision", "revision", "text"), ("endian", "endian", EndianType),
             ("mpuPresent", "mpu_present", "bool"), ("fpuPresent", "fpu_present", "bool"), ("fpuDP", "fpu_dp", "bool"),
             ("dspPresent", "dsp_present", "bool"), ("icachePresent", "icache_present", "bool"),
             ("dcachePresent", "dcache_present", "bool"), ("itcmPresent", "itcm_present", "bool"),
             ("dtcmPresent", "dtcm_present", "bool"), ("vtorPresent", "vtor_present", "bool"),
             ("nvicPrioBits", "nvic_prio_bits", "int"), ("vendorSystickConfig", "vendor_systick_config", "bool"),
             ("deviceNumInterrupts", "device_num_interrupts", "int"), ("sauNumRegions", "sau_num_regions", "int")], []),
    "sauRegionsConfig": (SVDSauRegionsConfig, [], [],
                         [("enabled", "enabled", "bool"),
                          ("protectionWhenDisabled", "protection_when_disabled", ProtectionStringType)]),
    "region": (SVDSauRegion, ["base", "limit", "access"],
               [("base", "base", "hex"), ("limit", "limit", "hex"), ("access", "access", SauAccessType)],
               [("enabled", "enabled", "bool"), ("name", "name", "text")]),
    "peripheral": (SVDPeripheral, ["name", "baseAddress"],
                   DIM + [("name", "name", "text"), ("version", "version", "text"), ("description", "description", "free"),
                          ("alternatePeripheral", "alternate_peripheral", "text"), ("groupName", "group_name", "text"),
                          ("prependToName", "prepend_to_name", "text"), ("appendToName", "append_to_name", "text"),
                          ("headerStructName", "header_struct_name", "text"),
                          ("disableCondition", "disable_condition", "free"), ("baseAddress", "base_address", "hex")] + PROPS,
                   [("derivedFrom", "derived_from", "text")]),
    "addressBlock": (SVDAddressBlock, ["size", "usage"],
                     [("offset", "offset", "hex"), ("size", "size", "hex"), ("usage", "usage", EnumeratedTokenType),
                      ("protection", "protection", ProtectionStringType)], []),
    "interrupt": (SVDInterrupt, ["name"],
                  [("name", "name", "text"), ("description", "description", "free"), ("value", "value", "int")], []),
    "cluster": (SVDCluster, ["name", "addressOffset"],
                DIM + [("name", "name", "text"), ("description", "description", "free"),
                       ("alternateCluster", "alternate_cluster", "text"), ("headerStructName", "header_struct_name", "text"),
                       ("addressOffset", "address_offset", "hex")] + PROPS, [("derivedFrom", "derived_from", "text")]),
    "register": (SVDRegister, ["name", "addressOffset"],
                 DIM + [("name", "name", "text"), ("displayName", "display_name", "text"),
                        ("description", "description", "free"), ("alternateGroup", "alternate_group", "text"),
                        ("alternateRegister", "alternate_register", "text"), ("addressOffset", "address_offset", "hex")]
                 + PROPS + [("dataType", "data_type", DataTypeType),
                            ("modifiedWriteValues", "modified_write_values", ModifiedWriteValuesType),
                            ("readAction", "read_action", ReadActionType)], [("derivedFrom", "derived_from", "text")]),
    "field": (SVDField, ["name"],
              DIM + [("name", "name", "text"), ("description", "description", "free"), ("bitOffset", "bit_offset", "int"),
                     ("bitWidth", "bit_width", "int"), ("lsb", "lsb", "int"), ("msb", "msb", "int"),
                     ("bitRange", "bit_range", "text"), ("access", "access", AccessType),
                     ("modifiedWriteValues", "modified_write_values", ModifiedWriteValuesType),
                     ("readAction", "read_action", ReadActionType)], [("derivedFrom", "derived_from", "text")]),
    "writeConstraint": (SVDWriteConstraint, [],
                        [("writeAsRead", "write_as_read", "bool"),
                         ("useEnumeratedValues", "use_enumerated_values", "bool")], []),
    "enumeratedValues": (SVDEnumeratedValueContainer, [],
                         [("name", "name", "text"), ("headerEnumName", "header_enum_name", "text"),
                          ("usage", "usage", EnumUsageType)], [("derivedFrom", "derived_from", "text")]),
    "dimArrayIndex": (SVDDimArrayIndex, [], [("headerEnumName", "header_enum_name", "text")], []),
    "enumeratedValue": (SVDEnumeratedValue, ["name"],
                        [("name", "name", "text"), ("description", "description", "free"), ("value", "value", "text"),
                         ("isDefault", "is_default", "bool")], []),
}
# where children go: (parent level, child level) -> (model attribute, is a list, wrapping element)
CHILD = {
    ("device", "cpu"): ("cpu", False, None), ("cpu", "sauRegionsConfig"): ("sau_regions_config", False, None),
    ("sauRegionsConfig", "region"): ("regions", True, None), ("device", "peripheral"): ("peripherals", True, "peripherals"),
    ("peripheral", "addressBlock"): ("address_blocks", True, None), ("peripheral", "interrupt"): ("interrupts", True, None),
    ("peripheral", "cluster"): ("registers_clusters", True, "registers"),
    ("peripheral", "register"): ("registers_clusters", True, "registers"),
    ("cluster", "cluster"): ("registers_clusters", True, None), ("cluster", "register"): ("registers_clusters", True, None),
    ("register", "field"): ("fields", True, "fields"), ("register", "writeConstraint"): ("write_constraint", False, None),
    ("field", "writeConstraint"): ("write_constraint", False, None),
    ("field", "enumeratedValues"): ("enumerated_value_containers", True, None),
    ("enumeratedValues", "enumeratedValue"): ("enumerated_values", True, None),
    ("dimArrayIndex", "enumeratedValue"): ("enumerated_values", True, None),
    ("peripheral", "dimArrayIndex"): ("dim_array_index", False, None),
    ("cluster", "dimArrayIndex"): ("dim_array_index", False, None),
    ("register", "dimArrayIndex"): ("dim_array_index", False, None),
    ("field", "dimArrayIndex"): ("dim_array_index", False, None),
}
LISTS = {"device": ["peripherals"], "peripheral": ["address_blocks", "interrupts", "registers_clusters"],
         "cluster": ["registers_clusters"], "register": ["fields"], "field": ["enumerated_value_containers"],
         "enumeratedValues": ["enumerated_values"], "dimArrayIndex": ["enumerated_values"], "sauRegionsConfig": ["regions"]}
# a chain of containers from the device down to each level
PATH = {
    "device": [], "cpu": ["device"], "sauRegionsConfig": ["device", "cpu"], "region": ["device", "cpu", "sauRegionsConfig"],
    "peripheral": ["device"], "addressBlock": ["device", "peripheral"], "interrupt": ["device", "peripheral"],
    "cluster": ["device", "peripheral"], "register": ["device", "peripheral"],
    "field": ["device", "peripheral", "register"], "writeConstraint": ["device", "peripheral", "register", "field"],
    "enumeratedValues": ["device", "peripheral", "register", "field"],
    "enumeratedValue": ["device", "peripheral", "register", "field", "enumeratedValues"],
    "dimArrayIndex": ["device", "peripheral", "register"],
}


class Node:
    """A document element in the making: scalars (text and value), attributes and child nodes in order."""

    def __init__(self, level):
        self.level = level
        self.cls, self.mandatory, self.elements, self.attributes = LEVELS[level]
        self.values = {}  # tag or attribute name -> (text, value)
        self.kids = []    # Node
        self.extra = []   # (tag, text) appended verbatim

    def put(self, tag, text, value):
        self.values[tag] = (text, value)
        return self

    def add(self, *kids):
        self.kids.extend(kids)
        return self

    def xml(self):
        e = ET.Element(self.level)
        for tag, attr, kind in self.attributes:
            if tag in self.values:
                e.set(tag, self.values[tag][0])
        for tag, attr, kind in self.elements:
            if tag in self.values:
                sub(e, tag, self.values[tag][0])
        wraps = {}
        for k in self.kids:
            if k.level == "range":
                r = ET.SubElement(e, "range")
                sub(r, "minimum", k.values["minimum"][0])
                sub(r, "maximum", k.values["maximum"][0])
                continue
            attr, many, wrap = CHILD[(self.level, k.level)]
            if wrap is None:
                e.append(k.xml())
            else:
                if wrap not in wraps:
                    wraps[wrap] = ET.SubElement(e, wrap)
                wraps[wrap].append(k.xml())
        if self.level == "device" and "peripherals" not in wraps:
            ET.SubElement(e, "peripherals")
        for tag, text in self.extra:
            sub(e, tag, text)
        return e

    def model(self):
        kw = {}
        for tag, attr, kind in self.attributes + self.elements:
            if tag in self.values:
                kw[attr] = self.values[tag][1]
        if self.level == "device":
            kw.setdefault("xs_no_namespace_schema_location", "")
            kw.setdefault("schema_version", "1.3")
        if self.level == "addressBlock":
            kw.setdefault("offset", 0)
        if self.level == "interrupt":
            kw.setdefault("value", 0)
        for a in LISTS.get(self.level, []):
            kw[a] = []
        for k in self.kids:
            if k.level == "range":
                kw["range_"] = (k.values["minimum"][1], k.values["maximum"][1])
                continue
            attr, many, wrap = CHILD[(self.level, k.level)]
            if many:
                kw[attr].append(k.model())
            else:
                kw[attr] = k.model()
        return self.cls(**kw)


class Range:
    level = "range"

    def __init__(self, lo, hi):
        self.values = {"minimum": lo, "maximum": hi}


def sub(parent, tag, text):
    e = ET.SubElement(parent, tag)
    e.text = text
    return e


def value(sx, kind, name, hi=2**128 - 1):
    """(text, value) of a symbolic element content in canonical notation"""
    if kind == "int":
        v = sx.int(name, 0, hi)
        return sx.num(v), v
    if kind == "hex":
        v = sx.int(name, 0, hi)
        return sx.hexnum(v), v
    if kind == "bool":
        b = sx.bool(name)
        return sx.ite(b, "true", "false"), b
    if kind == "text":
        t = sx.text(name, 2, 2, "aZ9_")
        return t, t
    if kind == "free":
        t = sx.text(name, 2, 2, "aZ <")
        return t, t
    members = list(kind)
    m = sx.choice(name, members)
    return m.value, m


def fill(sx, node, name, optional=(), fixed=()):
    """Mandatory content plus the given optional elements (forking on the presence of each in `optional`)."""
    for tag, attr, kind in node.attributes + node.elements:
        if tag in node.values:
            continue
        if tag in node.mandatory or tag in fixed:
            node.put(tag, *value(sx, kind, name + "." + tag))
        elif tag in optional:
            if sx.pick(name + "." + tag + "?", [False, True]):
                node.put(tag, *value(sx, kind, name + "." + tag))
    return node


def plain_node(level, tag="N"):
    """A node with fixed mandatory content."""
    n = Node(level)
    for t, attr, kind in n.elements:
        if t in n.mandatory:
            if kind in ("int", "hex"):
                n.put(t, "32", 32)
            elif kind == "bool":
                n.put(t, "false", False)
            elif kind in ("text", "free"):
                n.put(t, tag, tag)
            else:
                m = list(kind)[0]
                n.put(t, m.value, m)
    return n


def wrap(node):
    """The device node containing the given node on the standard chain of containers."""
    top = node
    for level in reversed(PATH[node.level]):
        up = plain_node(level)
        up.add(top)
        top = up
    return top


def options(level):
    cls, man, elements, attributes = LEVELS[level]
    return [t for t, a, k in attributes + elements if t not in man]


def parse(sx, root, schema="1.3", location=None):
    e = root.xml() if isinstance(root, Node) else root
    if schema is not None:
        e.set("schemaVersion", schema)
    e.set("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", location or "CMSIS-SVD.xsd")
    return sx.run(lambda: Parser(ET.ElementTree(e)).get_parsed_device())


def locate(device, level):
    """The element of the standard chain in a parsed device."""
    x = device
    for a, b in zip(PATH[level], (PATH[level] + [level])[1:]):
        attr, many, w = CHILD[(a, b)]
        x = getattr(x, attr)
        if many:
            x = x[0]
    return x


def numeric_slots():
    """every (level, tag) that holds a number"""
    out = []
    for level in LEVELS:
        for t, a, k in LEVELS[level][2]:
            if k in ("int", "hex"):
                out.append((level, t, a))
    return out + [("range", "minimum", 0), ("range", "maximum", 1)]


CROWDS = [(a, b) for (a, b), (attr, many, w) in CHILD.items() if many] + [("peripheral", "mixed"), ("cluster", "mixed"), ("cluster", "deep")]


def crowded(sx, parent, child, n, content=None):
    """A document with n children of one kind in one container, of which one (anywhere) has content of its own."""
    content = content or (lambda node, name: fill(sx, node, name, fixed=options(node.level)))
    at = sx.pick("at", sorted({0, 1, n // 2, n - 1}))
    alike = child != "deep" and sx.pick("alike", [False, True])
    top = plain_node(parent)
    if child == "deep":
        inner = content(Node("register"), "free")
        for i in range(n, 0, -1):
            c = plain_node("cluster", "C%d" % i)
            if i == at + 1:
                content(c, "level")
            c.add(plain_node("register", "A%d" % i), inner, plain_node("register", "Z%d" % i))
            inner = c
        top.add(inner)
        return wrap(top)
    for i in range(n):
        level = child if child != "mixed" else ("register", "cluster", "register")[i % 3]
        if i == at:
            k = content(Node(level), "free")
        else:
            k = plain_node(level, "N" if alike else "N%d" % i)
            if alike and any(t == "derivedFrom" for t, _, _ in k.attributes):
                k.put("derivedFrom", "B", "B")
            for t, a, kind in k.elements:
                if t in k.values and kind in ("int", "hex"):
                    k.put(t, str(1000 + i), 1000 + i)
            if level == "enumeratedValue":
                k.put("value", str(i), str(i))
            if level == "interrupt":
                k.put("value", str(i), i)
        top.add(k)
    return wrap(top)
