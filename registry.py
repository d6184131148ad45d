"""Property id -> harness tasks per tier, what they decide, and within which bounds."""
COMMON_ASSUMPTIONS = [
    "symx/instr.py and symx/runtime.py interpret Python faithfully on symbolic values (every run replays sampled paths of "
    "every task on the plain package and compares all observations; a mismatch is reported and never counts as covered)",
    "lxml, rustworkx and the Python standard library outside the modelled builtins behave as on the concrete paths they run",
    "dictionaries and sets iterate in insertion / fixed order (CPython); one hash seed per run",
    "z3 decides the queries correctly; unknown answers are counted as not covered",
]
NOT_APPLICABLE = {}
PROPERTIES = {}


def T(module, harness, params=None, **k):
    return {"module": "props." + module, "harness": harness, "params": params or {}, **k}


def prop(pid, tasks, note, bounds_text, bounds, outside="", **k):
    PROPERTIES[pid] = {"tasks": tasks, "note": note, "bounds_text": bounds_text, "bounds": bounds, "outside": outside, **k}


def pick(tier, quick, thorough):
    return quick if tier == "quick" else thorough


# ---------------------------------------------------------------- the format, as far as it determines the tasks
# number of optional elements/attributes per level of the format (props/svdxml.py)
OPTIONAL = {"device": 11, "cpu": 11, "sauRegionsConfig": 2, "region": 2, "peripheral": 18, "addressBlock": 2, "interrupt": 2,
            "cluster": 13, "register": 17, "field": 15, "writeConstraint": 2, "enumeratedValues": 4, "dimArrayIndex": 1,
            "enumeratedValue": 3}
# number of (elements, elements + attributes, text slots) per level
ELEMENTS = {"device": (16, 16, 7), "cpu": (16, 16, 1), "sauRegionsConfig": (0, 2, 0), "region": (3, 5, 1),
            "peripheral": (19, 20, 10), "addressBlock": (4, 4, 0), "interrupt": (3, 3, 1), "cluster": (14, 15, 6),
            "register": (18, 19, 7), "field": (14, 15, 5), "writeConstraint": (2, 2, 0), "enumeratedValues": (3, 4, 3),
            "dimArrayIndex": (1, 1, 1), "enumeratedValue": (4, 4, 2)}
FREE = {"device": 9, "cpu": 1, "region": 1, "peripheral": 12, "interrupt": 2, "cluster": 7, "register": 8, "field": 6,
        "enumeratedValues": 3, "dimArrayIndex": 1, "enumeratedValue": 3}
N_NUM, N_BOOL = 39, 15
ENUMS = ["CPUNameType", "EndianType", "ProtectionStringType", "SauAccessType", "AccessType", "EnumeratedTokenType",
         "DataTypeType", "ModifiedWriteValuesType", "ReadActionType", "EnumUsageType"]
CROWDS = [("sauRegionsConfig", "region"), ("device", "peripheral"), ("peripheral", "addressBlock"), ("peripheral", "interrupt"),
          ("peripheral", "cluster"), ("peripheral", "register"), ("cluster", "cluster"), ("cluster", "register"), ("register", "field"),
          ("field", "enumeratedValues"), ("enumeratedValues", "enumeratedValue"), ("dimArrayIndex", "enumeratedValue"),
          ("peripheral", "mixed"), ("cluster", "mixed"), ("cluster", "deep")]
SHAPES = ["registers", "fields", "blocks", "cpu", "constraints", "empty"]
RICH = ["arrays", "derived", "bits", "enums", "cpu", "texts", "registers", "overlapping", "alternates", "crowd"]


def level_tasks(module, harness, k, rests=(False, True)):
    return [T(module, harness, {"level": l, "gi": g, "k": k, "rest": r})
            for l, n in OPTIONAL.items() for g in range((n + k - 1) // k) for r in rests]


def slots(which, step):
    return [{"level": l, "lo": i, "hi": i + step} for l, n in ELEMENTS.items() for i in range(0, n[which], step)]


# ---------------------------------------------------------------------------------------------- reading documents
def c01(tier):
    t = [T("literal", "accepted", {"form": f, "n": pick(tier, 3, 8), "lo": i, "hi": i + 10})
         for f in ("dec", "plus", "zeros", "0x", "0X", "#", "0b") for i in range(0, N_NUM, 10)]
    t += [T("literal", "accepted", {"form": f, "n": n, "lo": i, "hi": i + 10, "exact": True})
          for f, n in (("dec", 20), ("dec", 40), ("plus", 19), ("zeros", 18), ("0x", 17), ("0X", 33), ("#", 65), ("0b", 66)) for i in range(0, N_NUM, 10)]
    for n in (1, 2, 3):
        for i in (0,) if n == 1 else pick(tier, (0, 17, 36), range(0, N_NUM, 3)):
            t.append(T("literal", "refused", {"n": n, "lo": i, "hi": i + (N_NUM if n == 1 else 3), "alphabet": "019afgxXbBoO_#+-."}))
    return t


prop("C01", c01,
     "Documents with one symbolic literal at each of the 39 numeric elements are run through the real parser; the value it "
     "stores is compared with the value the notation denotes, any other text must be refused.",
     "literals of up to 3 digits (thorough: 8) per notation, and of exactly 20 and 40 decimal, 17 and 33 hexadecimal, 65 and 66 binary "
     "digits, at every numeric element; arbitrary texts of 1 to 3 characters "
     "over 019afgxXbBoO_#+-.",
     {"digits": [3, 8], "long_literals": [17, 18, 19, 20, 33, 40, 65, 66], "elements": 39, "arbitrary_text_chars": 3},
     "other lengths; the suffixes k/m/g/t of the schema, which the code refuses")
prop("C02", lambda tier: [T("literal", "bools", {"n": 6, "lo": i, "hi": i + 2}) for i in range(0, N_BOOL, 2)]
     + [T("literal", "tokens", {"enum": e, "mutate": m}) for e in ENUMS for m in (False, True)]
     + [T("literal", "case", {"enum": e}) for e in ENUMS],
     "Symbolic texts at all 15 boolean and all enumerated elements; accepted exactly if they spell a token of the format "
     "(list kept in the harness), with the value of that token.",
     "boolean texts of up to 6 characters; every token with any one character replaced, dropped or added, and in any letter case",
     {"boolean_chars": 6, "token_mutations": 1, "enumerated_types": 10})
prop("C03", lambda tier: level_tasks("transfer", "level", pick(tier, 6, 9))
     + [T("transfer", "mandatory", {"level": l}) for l in OPTIONAL
        if l not in ("sauRegionsConfig", "writeConstraint", "enumeratedValues", "dimArrayIndex")]
     + [T("transfer", "lenient")] + [T("transfer", "tree", {"shape": s}) for s in SHAPES[:5]]
     + [T("transfer", "containers", {"what": w}) for w in ("registers", "fields")]
     + [T("transfer", "crowd", {"parent": a, "child": b, "n": n}) for a, b in CROWDS for n in pick(tier, (12 if b != "deep" else 6,), (12, 40) if b != "deep" else (6, 14))],
     "Documents with symbolic values and symbolic presence of optional parts are parsed; the whole resulting tree is "
     "compared with the tree the document was built from, including parent links.",
     "per level every presence pattern of each group of 6 (thorough: 9) optional elements, the others all present or all "
     "absent; trees with up to 2 peripherals and 5 registers/clusters; 12 (40) children of each kind in one container, 6 (14) nested "
     "clusters; numbers up to 64 bits, texts of 2 characters",
     {"presence_group": [6, 9], "levels": 14, "number_bits": 64, "siblings": [12, 40]})
prop("C04", lambda tier: [T("lenient", "repeated", {"n": n, **s}) for s in slots(0, 10) for n in pick(tier, (2, 6), (2, 3, 9))]
     + [T("lenient", "blank", s) for s in slots(0, 20)] + [T("lenient", "comments", s) for s in slots(0, 10)]
     + [T("lenient", "padded", {"n": pick(tier, 1, 2), **s}) for s in slots(1, 10)]
     + [T("lenient", "inner", s) for s in slots(2, 20)] + [T("lenient", "split", {"what": w}) for w in ("registers", "fields")],
     "At every element and attribute: symbolic repetition, padding, comments and container splits; the parsed tree must "
     "equal the one of the plain document and exactly the documented reports must appear.",
     "2 and 6 (thorough: 3, 9) occurrences, 1 (2) whitespace characters on each side, up to 5 comments or processing instructions at "
     "places of a text and around all elements, 4 items over any split into containers",
     {"occurrences": [6, 9], "padding": [1, 2]})
prop("C05", lambda tier: [T("reading", "attempts", {"entry": e}) for e in ("file", "content", "str", "validate_file", "validate_content")]
     + [T("reading", "again", {"how": h}) for h in ("file", "str", "content")] + [T("reading", "missing")] + [T("reading", "kinds", {"level": l}) for l in OPTIONAL]
     + [T("carried", "entries", {"how": h, "what": w}) for h in ("file", "str", "content") for w in ("process", "map")],
     "The outcome of every decoding attempt is a symbolic boolean (the libxml2 parser is replaced by an oracle that fails "
     "or succeeds as the solver chooses); order, strictness, reports and the error raised are compared with the statement. "
     "Real documents with symbolic values are read in every form.",
     "all failure patterns of the 11 attempts at 5 entry points; 10 forms of handing over a document at 14 levels; "
     "file, string and bytes entry points of Process and PeripheralRegisterMap; a second, different document read from the same place",
     {"attempts": 11, "entry_points": 11, "forms": 10},
     "which byte sequences libxml2 accepts for a given encoding")
prop("C33", lambda tier: [T("reading", h, {"entry": e}) for h in ("verdict", "twice") for e in ("file", "content", "str")],
     "The schema's verdict is a symbolic boolean (lxml's XMLSchema is replaced by a stand-in that records which schema and "
     "document it is given); result, error and chosen schema are compared with the statement.",
     "every schema version and none, both verdicts, get_exception absent/true/false, three entry points, two validations in a row",
     {"versions": 14, "entry_points": 3}, "the verdict itself (libxml2)")


# ---------------------------------------------------------------------------------------------- writing documents
prop("C06", lambda tier: level_tasks("roundtrip", "level", pick(tier, 6, 9)) + [T("roundtrip", "header"), T("roundtrip", "bare")]
     + [T("roundtrip", "text", {"level": l, "lo": 0, "hi": n, "n": pick(tier, 1, 2)}) for l, n in FREE.items()]
     + [T("roundtrip", "tree", {"shape": s, "how": h}) for s in SHAPES for h in ("content", "prettyfile")]
     + [T("roundtrip", "crowd", {"parent": a, "child": b, "n": n, "how": h}) for a, b in CROWDS for h in ("content", "pretty")
        for n in pick(tier, (12 if b != "deep" else 6,), (12, 40) if b != "deep" else (6, 14))],
     "Symbolic description trees are written by the real serializer and read back by the real parser; every attribute of "
     "every element must come back.",
     "per level every presence pattern of each group of 6 (thorough: 9) optional parts, numbers up to 64 bits, free texts of "
     "1 (2) characters over letters, blanks, markup characters, quotes and non-ASCII, six ways of writing; 12 (40) children of each kind",
     {"presence_group": [6, 9], "number_bits": 64, "text_chars": [1, 2], "siblings": [12, 40]},
     "texts made of whitespace only, negative numbers, strings with a declaration of another encoding")
prop("C07", lambda tier: level_tasks("roundtrip", "order", pick(tier, 5, 8))
     + [T("roundtrip", "numbers", {"lo": i, "hi": i + 5, "bits": pick(tier, 32, 64)}) for i in range(0, N_NUM, 5)]
     + [T("roundtrip", "schema_tree", {"shape": s}) for s in SHAPES]
     + [T("roundtrip", "order_crowd", {"parent": a, "child": b, "n": n}) for a, b in CROWDS for n in pick(tier, (12 if b != "deep" else 6,), (12, 40) if b != "deep" else (6, 14))]
     + [T("export", "exported")] + [T("export", "document", {"shape": s, "optional": o}) for s in RICH for o in (True, False)],
     "Documents written from symbolic descriptions and from exported processed devices are compared with the element order "
     "and leaf formats read from the packaged schema 1.3.11.",
     "per level every presence pattern of each group of 5 (thorough: 8) optional parts with every kind of child, every "
     "32-bit (64-bit) value at each of 39 numeric elements, ten shapes of exported devices, 12 (40) children of each kind in one container",
     {"presence_group": [5, 8], "number_bits": [32, 64], "shapes": 16})


# ------------------------------------------------------------------------------------------------------ expansion
def c08(tier):
    return ([T("dim", "register", {"kind": "list", "form": f, "n": n}) for f in ("none", "num", "alpha", "list", "list2")
             for n in pick(tier, (2, 3, 5, 12), (2, 3, 5, 8, 11, 20, 26))]
            + [T("dim", "register", {"kind": "array", "form": f, "n": n}) for f in ("none", "num") for n in pick(tier, (1, 3, 12, 33), (1, 2, 3, 5, 8, 12, 33, 66, 101))]
            + [T("dim", "register", {"kind": "list", "form": f, "n": n}) for f in ("none", "num", "list") for n in pick(tier, (33,), (33, 66, 101))]
            + [T("dim", "cluster", {"kind": k, "form": f, "n": n, "m": m}) for k, f in (("array", "none"), ("list", "none"), ("list", "list"))
               for n, m in pick(tier, ((2, 2), (3, 2), (11, 1)), ((2, 2), (3, 2), (2, 3), (11, 2), (2, 11)))]
            + [T("dim", "peripheral", {"n": n}) for n in pick(tier, (1, 2, 3, 11), (1, 2, 3, 4, 6, 11, 17))]
            + [T("dim", "field", {"form": f, "n": n}) for f in ("none", "num", "list") for n in pick(tier, (3, 12), (1, 2, 3, 5, 11, 16))]
            + [T("dim", "count", {"level": l, "top": 6 if l == "fld" else pick(tier, 12, 40)}) for l in ("per", "clu", "reg", "reglist", "fld")]
            + [T("dim", "misuse", {"level": l}) for l in ("per", "clu", "reg", "fld")])


prop("C08", c08,
     "Arrays and lists with symbolic addresses, increments, index values and counts are processed; number, names, display "
     "names, positions and all carried attributes of the elements are compared with the formula of the statement.",
     "1, 2, 3, 5, 12 and 33 elements (thorough: up to 101) per array with any 64-bit address and increment, nested arrays of up to "
     "11 x 1 (2 x 11), any count from -3 to 12 (40) for the acceptance rule, at all four levels",
     {"elements": [33, 101], "address_bits": 64, "nesting": 2}, "other and longer arrays")
prop("C09", lambda tier: [T("dimindex", "numeric", cap=140), T("dimindex", "letters"), T("dimindex", "bounds"), T("dimindex", "letters", {"wide": (9, 12)}), T("dimindex", "letters", {"wide": (24, 27)}),
                           T("dimindex", "numeric", {"top": 15, "dims": (9, 12), "bases": (0, 90, 990, 99990)})]
     + [T("dimindex", "listing", {"k": k, "ws": w}) for k in pick(tier, (12,), (9, 12, 20)) for w in ("", " ")]
     + [T("dimindex", "listing", {"k": k, "ws": w}) for k in pick(tier, (2, 3), (2, 3, 4)) for w in ("", " ", "  ")]
     + [T("dimindex", "anytext", {"length": k, "n": n}) for k in range(1, pick(tier, 6, 7)) for n in (1, 2, 3)],
     "The dimIndex is a symbolic text; it is accepted exactly if it spells dim indices in a documented form (decided by an "
     "automaton kept in the harness), and the names of the elements follow it.",
     "numeric bounds 0 to 130 and around 100, 1000 and 100000, all letter pairs, ranges of up to 26 letters, lists of 2, 3 and 12 "
     "(thorough: 2 to 4, 9, 12 and 20) entries, and any text of up to 5 (6) characters over -,AB 01c9; ranges between any of A Y Z [ _ a z",
     {"text_chars": [5, 6], "list_entries": [12, 20], "numeric_bound": 130})
prop("C10", lambda tier: [T("inherit", "levels", {"props": ["access", "protection", "reset_value", "reset_mask"]})]
     + [T("inherit", "levels", {"props": [p]}) for p in ("access", "protection", "reset_value", "reset_mask")]
     + [T("inherit", "twin", {"prop": p}) for p in ("access", "protection", "reset_value", "reset_mask")]
     + [T("inherit", "constraint")] + [T("inherit", "fields", {"n": n}) for n in pick(tier, (3,), (3, 4))] + [T("inherit", "deep", {"prop": p, "depth": d}) for p in ("access", "protection", "reset_value", "reset_mask") for d in pick(tier, (6,), (6, 12))]
     + [T("inherit", "crowd", {"prop": p, "n": n}) for p in ("access", "protection", "reset_value", "reset_mask") for n in pick(tier, (9,), (9, 20))],
     "Each property is optional with a symbolic value on every level of a device; the value of every level of the result "
     "must be the nearest stated one or the documented default.",
     "all subsets of seven places stating each property, 64-bit values; 6 (thorough: 12) nested clusters; 9 (20) peripherals, registers "
     "and clusters side by side; 3 (4) fields of one register",
     {"nested_clusters": [6, 12], "places": 7, "value_bits": 64, "siblings": [9, 20]}, "deeper nesting")
prop("C11", lambda tier: [T("size", "tree"), T("size", "tree", {"odd": True}), T("size", "unsupported"), T("size", "dims")]
     + [T("size", "twin", {"nested": n}) for n in (False, True)]
     + [T("size", "deep", {"depth": d}) for d in pick(tier, (2, 4), (2, 4, 6))] + [T("size", "crowd", {"n": n}) for n in pick(tier, (9,), (9, 20))],
     "Sizes are symbolic and optional on every level; the effective sizes are compared with the rule of the statement.",
     "device, peripheral, nested cluster and four registers; sizes 8 to 128, odd sizes, any size up to 320 for the refusal; arrays; "
     "4 (thorough: 6) nested clusters; 9 (20) registers and clusters side by side",
     {"nested_clusters": [4, 6], "max_size": 320, "siblings": [9, 20]})


# --------------------------------------------------------------------------------------------- derivation, references
PARTS = {
    "per": [["access", "protection", "reset_value", "reset_mask"], ["version", "description", "alternate_peripheral"],
            ["group_name", "prepend_to_name", "append_to_name", "disable_condition"]],
    "clu": [["access", "protection", "reset_value", "reset_mask"], ["description", "alternate_cluster", "header_struct_name"]],
    "reg": [["access", "protection", "reset_value", "reset_mask"], ["size", "data_type"],
            ["access", "modified_write_values", "read_action", "write_constraint"], ["display_name", "description", "alternate_group"],
            ["alternate_register"]],
    "fld": [["access", "modified_write_values", "read_action", "description"],
            ["modified_write_values", "read_action", "write_constraint", "description"]],
}
prop("C12", lambda tier: [T("derive", "inherit", {"level": l, "part": p, "chain": c}) for l, ps in PARTS.items() for p in ps for c in (False, True)]
     + [T("derive", "inherit", {"level": "fld", "part": PARTS["fld"][0] + ["write_constraint"], "chain": c}) for c in pick(tier, (False,), (False, True))]
     + [T("derive", "excluded")] + [T("derive", "position", {"level": "fld"})]
     + [T("derive", "dims", {"level": l, "own": o}) for l in ("per", "clu", "reg", "fld")
        for o in ([], ["dim"], ["same"], ["inc"], ["idx"], ["dim", "inc", "idx"]) if not (l == "per" and "idx" in o)]
     + [T("derive", "display", {"kind": k}) for k in ("array", "list")] + [T("derive", "enumeration")],
     "Base, derived element and enclosing levels state each property or not with symbolic values; the derived element must "
     "carry its own value, else the base's, else the enclosing one.",
     "all presence patterns per group of up to 4 properties on base, derived, second derived and enclosing element; 64-bit values",
     {"chain": 2, "properties": 25, "value_bits": 64}, "longer chains (C15 and C16: 20 elements)")
prop("C13", lambda tier: [T("derive", "children", {"level": l, "own": o}) for l in ("per", "clu", "reg") for o in (False, True)]
     + [T("derive", "namesakes", {"level": l}) for l in ("per", "clu")]
     + [T("derive", "clash", {"level": l}) for l in ("per", "clu", "reg")] + [T("derive", "chained", {"level": l}) for l in ("per", "clu", "reg")]
     + [T("derive", "pending_arrays", {"level": l, "what": w}) for l in ("per", "clu") for w in ("container", "inner", "user")]
     + [T("derive", "pending_arrays", {"level": l, "what": w, "more": m}) for l in ("per", "clu") for w in ("inner", "user") for m in pick(tier, (12,), (12, 40))]
     + [T("derive", "pending", {"level": l, "n": n, "lo": i, "hi": i + 1}) for l in ("per", "clu") for n in pick(tier, (2,), (2, 3)) for i in range(4)]
     + [T("derive", "crowd", {"level": l, "n": n, "deep": d}) for l, n, d in (("per", 14, 0), ("per", 14, 2), ("clu", 14, 1), ("reg", 20, 0)) + pick(tier, (), (("per", 40, 3), ("clu", 40, 3)))],
     "Derived containers with symbolic positions and values; children, their positions, object identity and the base are "
     "compared with the statement.",
     "up to 3 children with nesting, up to 2 (thorough: 3) references inside the containers, 14 and 20 (thorough: 40) children, 12 (40) further ones next to references that wait, chains of 2 derivations, 64-bit addresses",
     {"children": [20, 40], "chain": 2, "address_bits": 64})
REF_COUNT = {"per": 6, "clu": 15, "reg": 16, "fld": 12, "enum": 10}
prop("C14", lambda tier: [T("refs", "scope", {"level": l, "lo": i, "hi": i + 4}) for l, n in REF_COUNT.items() for i in range(0, n, 4)]
     + [T("refs", "scope", {"level": "reg", "lo": i, "hi": i + 4, "deep": True}) for i in range(0, 16, 4)]
     + [T("refs", "groups", {"where": w}) for w in ("sibling", "far")] + [T("refs", "arrays", {"level": l}) for l in ("clu", "reg")]
     + [T("refs", "near_array", {"level": l, "form": f}) for l in ("per", "clu", "reg") for f in ("[%s]", "%s") if (l, f) != ("per", "%s")] + [T("refs", "crowd_scope", {"level": "reg"})]
     + [T("refs", "deep_scope", {"kind": k, "n": n}) for k in ("reg", "fld", "clu") for n in pick(tier, (12,), (12, 20))],
     "A device with equal names in several scopes; the reference ranges over all paths, near misses included, values are "
     "symbolic so that the element found is identified by its values.",
     "59 references from elements of five kinds in a device of 2 peripherals with nested clusters, 128 references into 6 peripherals of 12 "
     "registers with names that start like each other, parts of the names of arrays, paths through up to 12 (thorough: 20) nested clusters with a level wrong, missing or too many",
     {"references": 187, "kinds": 5, "depth": [12, 20]})
prop("C15", lambda tier: [T("refs", "graph", {"level": l, "n": n}) for l in ("per", "clu", "reg", "fld", "enum") for n in (1, 2, 3)]
     + [T("refs", "graph", {"level": l, "n": 4, "first": f}) for l in pick(tier, ("per", "reg"), ("per", "clu", "reg", "fld", "enum")) for f in range(6)]
     + [T("refs", "cross", {"first": f}) for f in range(3)]
     + [T("refs", "crowd_waiting", {"level": l, "n": n}) for l in ("reg", "clu") for n in pick(tier, (12, 36), (12, 100))]
     + [T("refs", "crowd_graph", {"level": l, "n": n, "shape": s}) for l in ("per", "clu", "reg", "fld", "enum") for s in ("chain", "tree")
        for n in pick(tier, (10, 20), (10, 28))],
     "The reference of each of n elements is a free choice among all elements, none and a dangling name; accepted exactly "
     "if acyclic and resolvable, and every chain yields the values of its root.",
     "all reference graphs over up to 3 elements of each kind (4 for peripherals and registers; thorough: all), 432 mixed "
     "graphs across two peripherals, chains and trees of 10 and 20 (28) elements with any one reference changed, 36 (100) references "
     "that wait for one peripheral",
     {"elements": [20, 28], "kinds": 5})
LINKS3 = [[None, None, None], [None, 0, 1], [None, 0, 0], [1, 2, None], [2, None, 1], [None, None, 0]]
prop("C16", lambda tier: [T("refs", "permuted", {"level": l, "links": k, "n": 3}) for l in ("per", "clu", "reg", "fld", "enum", "far") for k in LINKS3]
     + [T("refs", "permuted", {"level": "mixed", "links": k, "n": 3}) for k in LINKS3[:1] + [[None, None, 1]]]
     + [T("refs", "permuted", {"level": "val", "links": [None] * 4, "n": 4})]
     + [T("refs", "crowd_order", {"level": l, "n": n, "shape": s}) for l in ("per", "clu", "reg", "fld", "enum") for s in ("chain", "tree")
        for n in pick(tier, (11, 20), (11, 28))]
     + [T("refs", "sized", {"where": w}) for w in ("per", "clu", "mixed")] + [T("refs", "alike", {"what": w}) for w in ("enum", "fld", "per", "reg", "clu")]
     + [T("refs", "toplevel", {"shape": s}) for s in ("inner", "nested", "arrays")]
     + [T("refs", "containers", {"level": l, "user": u, "base": b}) for l in ("per", "clu") for u in ("reg", "clu", "fld", "enum") for b in ("sibling", "own", "next", "far")],
     "The order of siblings is a free choice; the processed device must equal the one of the first order, for all symbolic "
     "values, with and without derivations among the siblings.",
     "all permutations of 3 siblings (4 values) at each level, six derivation patterns, references across peripherals; 24 orders of 11 and "
     "more of 20 (28) elements in derivation chains and trees, three registers of any sizes from 8 to 128 bits, "
     "2 and 3 siblings at equal addresses, bits or usages",
     {"siblings": [20, 28], "patterns": 8})


# ---------------------------------------------------------------------------------------------------------- layout
prop("C17", lambda tier: [T("layout", "nested", {"depth": d}) for d in pick(tier, (1, 2, 3, 4), (1, 2, 3, 4, 5))]
     + [T("layout", "nested_deep", {"depth": d}) for d in pick(tier, (8,), (8, 12))]
     + [T("layout", "arrays", {"n": n, "m": m, "k": k, "tidy": t}) for n, m, k, t in
        ((2, 2, 2, True), (3, 1, 2, True), (1, 2, 3, True), (1, 2, 2, False), (2, 1, 2, False), (2, 2, 1, False))
        + pick(tier, (), ((3, 3, 3, True), (2, 3, 4, True)))]
     + [T("layout", "derived", {"what": w}) for w in ("peripheral", "chain", "array", "cluster", "clusterarray", "register", "grown", "grownperipheral")],
     "All offsets, increments and base addresses are symbolic; the absolute address of every element must be their sum.",
     "up to 4 (thorough: 5) nested clusters with any offsets, 8 (12) with one free, arrays of up to 3 x 3 x 3 elements, eight kinds of derived "
     "copies, 64-bit numbers",
     {"depth": [8, 12], "address_bits": 64})
prop("C18", lambda tier: [T("layout", "extents", {"shape": s, "nblocks": b}) for s, b in
                          (("registers", 1), ("registers", 2), ("cluster", 1), ("cluster", 2), ("nested", 1), ("nested", 2),
                           ("nested", 3), ("arrays", 1), ("arrays", 2)) + pick(tier, (), (("registers", 3), ("cluster", 3), ("arrays", 3)))]
     + [T("layout", "extents_crowd", {"shape": s, "n": n}) for s, n in (("registers", 12), ("cluster", 12), ("blocks", 12), ("deep", 5))
        + pick(tier, (), (("registers", 40), ("cluster", 40), ("blocks", 40), ("deep", 9)))],
     "Positions and sizes of registers and address blocks are symbolic; all ends and lengths are compared with the statement.",
     "three registers in up to two clusters, up to 3 address blocks, 64-bit numbers, all register sizes; one free among 12 (thorough: 40) "
     "registers or blocks and in 5 (9) nested clusters",
     {"registers": [13, 41], "blocks": [13, 41], "address_bits": 64})
prop("C19", lambda tier: [T("layout", "sort_peripherals", {"n": n}) for n in (2, 3, 4)]
     + [T("layout", "sort_children", {"kinds": k, "where": w}) for k in ("rr", "rrr", "rcr", "ccr") + pick(tier, (), ("rrrr", "rccr")) for w in ("peripheral", "cluster")]
     + [T("layout", "sort_alternates")]
     + [T("layout", h, {"n": n}) for h in ("sort_fields", "sort_blocks", "sort_interrupts", "sort_values") for n in pick(tier, (2, 3), (2, 3, 4))]
     + [T("layout", "sort_crowd", {"level": l, "n": n}) for l in ("per", "reg", "clu", "mix", "fld", "blk", "int", "val")
        for n in ((12, 40) if l not in ("fld",) else (12, 30))],
     "Addresses (and so the order) are symbolic; every element must appear once and neighbours must be ordered.",
     "up to 4 peripherals, 3 (thorough: 4) registers/clusters, fields, blocks, interrupts and values at any place; one at any place among "
     "12 and 40 others; 64-bit addresses",
     {"elements": [3, 4], "crowd": 41, "address_bits": 64})


# ------------------------------------------------------------------------------------------------------ bits, names
prop("C20", lambda tier: [T("bits", "notations", {"bits": 127})] + [T("bits", "rangetext", {"n": n}) for n in range(1, pick(tier, 8, 10))]
     + [T("bits", "repeated", {"n": n}) for n in (2, 4)] + [T("derive", "position", {"level": "fld"})],
     "Every subset of the position elements with symbolic numbers, and every text as bit range (against an automaton).",
     "bits 0 to 127, all 32 subsets, range texts of up to 7 (thorough: 9) characters over []:0129 -x+",
     {"bits": 127, "text_chars": [7, 9]})
prop("C21", lambda tier: [T("bits", "conflicts", {"n": n, "top": 70}) for n in (1, 2)]
     + [T("bits", "conflicts", {"n": 3, "top": 40, "fixed": a + b + c}) for a in "rwb" for b in "rwb" for c in "rwb"]
     + ([T("bits", "conflicts", {"n": 4, "top": 40, "fixed": a + b + c + d}) for a in "rwb" for b in "rwb" for c in "rwb" for d in "rwb"]
        if tier != "quick" else [])
     + [T("bits", "expanded", {"n": n}) for n in pick(tier, (2,), (2, 3))] + [T("bits", "inherited")]
     + [T("bits", "crowd", {"n": n, "size": s}) for n, s in ((11, 32), (16, 64), (32, 32)) + pick(tier, (), ((64, 64), (40, 128)))],
     "Positions, widths and access of the fields are symbolic; refused exactly if two share a bit in one direction.",
     "up to 3 (thorough: 4) fields at bits 0 to 70, all access kinds, inherited access, arrays of fields; one anywhere among 11, 16 and 32 (64) "
     "fields",
     {"fields": [3, 4], "crowd": [33, 65], "bits": 70})
KINDS3 = [a + b + c for a in "rc" for b in "rc" for c in "rc"]
prop("C22", lambda tier: [T("names", "siblings", {"level": l, "n": n}) for l in ("per", "fld") for n in (2, 3, 4)]
     + [T("names", "siblings", {"level": "rc", "n": 3, "kinds": k, "depth": d}) for k in KINDS3 for d in (0, 1)]
     + [T("names", "siblings", {"level": "rc", "n": 4, "kinds": k}) for k in ("rrrr", "rcrc")]
     + [T("names", "crowd", {"level": l, "n": n, "k": k}) for l in ("per", "fld", "reg", "rc") for n, k in ((10, 70), (24, 0)) + pick(tier, (), ((40, 300),))]
     + [T("names", "groups", {"n": 3, "cluster": c}) for c in (False, True)] + [T("names", "containers")]
     + [T("names", "expanded", {"level": l, "form": f}) for l in ("per", "clu", "reg", "fld") for f in ("array", "list", "index")
        if not (l == "per" and f != "array") and not (l == "fld" and f == "array")]
     + [T("names", "derived", {"level": l}) for l in ("per", "clu", "reg")],
     "Names are symbolic texts, alternate groups optional; accepted exactly if pairwise distinct within a container and group.",
     "up to 4 siblings with names of 1 to 2 characters over a small alphabet, two nesting depths, arrays and derived copies; 10 and 24 (40) "
     "siblings, names of more than 70 (300) characters",
     {"siblings": [24, 40], "name_chars": 2}, "a register named like another one joined with its alternate group")
prop("C23", lambda tier: [T("enums", "literal", {"form": f, "n": n}) for f in ("dec", "0x", "0X", "#", "0b") for n in pick(tier, (1, 2, 3), (1, 2, 3, 4))]
     + [T("enums", "pattern", {"n": n, "prefix": p}) for n in pick(tier, (1, 2, 3), (1, 2, 3, 4)) for p in ("#", "0b", "+#")]
     + [T("enums", "literal", {"form": f, "n": n}) for f, n in (("dec", 20), ("dec", 40), ("0x", 17), ("0X", 33), ("#", 66), ("0b", 66))]
     + [T("enums", "longpattern", {"n": n, "k": k, "layout": l}) for n, k in ((8, 7), (20, 8), (64, 5), (14, 10)) + pick(tier, (), ((40, 12),)) for l in ("low", "high", "spread")]
     + [T("enums", "littext", {"n": n}) for n in pick(tier, (1, 2, 3, 4), (1, 2, 3, 4, 5))] + [T("enums", "missing")],
     "Symbolic literals per notation, patterns with any x positions, and any text, against the denotation of the statement.",
     "3 (thorough: 4) digits per notation and 17 to 66 digits, patterns of 3 (4) free positions and of 8, 20 and 64 positions with up to 8 "
     "placeholders (10, thorough 12, in 14 and 40), any text of 4 (5) characters",
     {"digits": [3, 4], "long_digits": 66, "pattern": [3, 4], "long_pattern": 64, "text_chars": [4, 5]})
prop("C24", lambda tier: [T("enums", "default", {"w": w, "k": k, "at": a, "own": o}) for w, k, os in
                          ((1, 1, (False, True)), (2, 0, (False, True)), (2, 2, (False, True)), (3, 1, (False, True)), (3, 2, (False,)), (4, 2, (False,)))
                          + pick(tier, (), ((3, 3, (False,)), (3, 2, (True,)), (5, 1, (False,)), (4, 3, (False,)))) for a in sorted({0, k}) for o in os]
     + [T("enums", "default", {"w": w, "k": 0, "at": 0, "own": False}) for w in pick(tier, (8, 9, 11), (8, 9, 10, 12))]
     + [T("enums", "crowd_default", {"w": w, "k": k, "at": a}) for w, k, a in ((4, 10, 0), (4, 15, 7), (5, 12, 12), (6, 20, 3)) + pick(tier, (), ((8, 40, 39), (7, 100, 50)))]
     + [T("enums", "default_beyond", {"w": w, "k": k}) for w, k in ((1, 1), (1, 2), (2, 2), (1, 3)) + pick(tier, (), ((2, 3), (2, 4)))]
     + [T("enums", "wildcard_default", {"w": w}) for w in (1, 2, 3)] + [T("enums", "defaults", {"n": n}) for n in (1, 2, 3)],
     "Values of an enumeration with a default are symbolic; the result must cover the field exactly once.",
     "fields of 1 to 4 (thorough: 5) bits, up to 2 (3) stated values of any number, the default at any place; one of any number among 10 to "
     "20 (100) stated ones in fields of 4 to 6 (8) bits; up to 3 (4) stated ones equal to each other, beyond the field or named "
     "like a remaining one",
     {"width": [6, 8], "values": [2, 3], "crowd": [21, 101]}, "wide fields: the code builds one object per value of the field")
prop("C25", lambda tier: [T("enums", "unique", {"n": n, "w": w, "alpha": "AB", "dflt": d}) for n, w, d in
                          ((1, 1, False), (1, 1, True), (2, 1, True), (2, 2, True), (2, 3, False), (3, 1, True), (3, 2, False), (2, 33, False), (2, 64, False), (2, 128, False))]
     + ([T("enums", "unique", {"n": n, "w": w, "alpha": "ABC", "dflt": d}) for n, w in ((3, 2), (3, 3)) for d in (False, True)] if tier != "quick" else [])
     + [T("enums", "crowd_unique", {"k": k, "w": w, "at": a}) for k, w, a in ((10, 4, 0), (10, 4, 5), (10, 4, 10), (20, 5, 19)) + pick(tier, (), ((60, 8, 0), (60, 8, 59)))]
     + [T("enums", "generated", {"w": w, "how": h}) for w in (1, 2, 3) for h in ("default", "pattern")],
     "Names and values of an enumeration are symbolic; what is kept, dropped and reported is compared with the statement.",
     "up to 3 values with any number up to beyond the field, names over 2 (thorough: 3) letters and reserved; one with any name and number "
     "among 10 and 20 (60); fields of 33, 64 and 128 bits at their borders",
     {"values": 3, "crowd": [21, 61], "width": 128})
prop("C26", lambda tier: [T("enums", "usages", {"n": n, "how": h}) for n in (0, 1, 2, 3) for h in ("own", "first", "last", "field")]
     + [T("enums", "inherited_usages", {"n": n, "m": m, "chain": c}) for n in (0, 1, 2) for m in (0, 1, 2) for c in (False, True)],
     "Usages of up to three enumerations are symbolic and optional, own or derived; a derived field has those of its base besides its own.",
     "0 to 3 enumerations, all usages, enumerations taken over by derivation, up to 2 on the base and 2 on a derived field",
     {"enumerations": 3})
prop("C27", lambda tier: [T("overlap", "peripherals", {"n": 2, "alt": a, "what": w}) for a in ("", "known", "unknown") for w in ("effective", "specified")]
     + [T("overlap", "peripherals", {"n": 3, "alt": a, "what": w}) for a in
        ([None, None, None], [None, "A", "A"], ["B", "C", "A"], [None, "C", None], [None, "A", "B"], ["C", None, None], ["B", None, None], ["B", "A", None])
        for w in ("effective", "specified")]
     + [T("overlap", "children", {"kinds": k, "alt": a, "depth": d}) for k in ("rr", "rc", "cr", "cc", "dd") for a in ("", "known") for d in (0, 1)]
     + [T("overlap", "children", {"kinds": k, "alt": a, "depth": 0}) for k in ("rrr", "rcr", "ccc")
        for a in ([None, None, None], [None, "A", "A"], ["B", "C", None], ["C", None, None])]
     + [T("overlap", "children", {"kinds": k, "alt": [None] * 4, "depth": 0}) for k in pick(tier, ("drrr",), ("drrr", "rrrr", "cccc"))]
     + [T("overlap", "crowd", {"level": l, "n": n}) for l in ("per", "rc") for n in pick(tier, (10,), (10, 30))]
     + [T("overlap", "peripherals", {"n": 4, "alt": [None] * 4, "what": w}) for w in ("effective", "specified")]
     + [T("overlap", "groups", {"n": n}) for n in (2, 3)] + [T("overlap", "apart")] + [T("overlap", "blocks", {"n": n}) for n in (1, 2, 3)],
     "Addresses and sizes are symbolic, alternates vary; the reports about each pair are compared with whether the pair "
     "shares a byte and names each other as alternates.",
     "up to 4 peripherals, registers or clusters at any place, one among 10 (30), eight alternate patterns, up to 3 address blocks",
     {"elements": 4, "crowd": [11, 31], "alternate_patterns": 8},
     "elements connected through a chain of alternates without naming each other; address blocks of size zero")
prop("C28", lambda tier: [T("overlap", "reserved", {"level": l, "n": n, "length": k}) for l in ("reg", "clu", "fld") for n, k in ((1, 8), (2, 8), (3, 8), (2, 7), (2, 9), (2, 10))]
     + [T("overlap", "empty", {"n": n}) for n in (1, 2, 3)] + [T("overlap", "alignment", {"n": n, "where": w}) for n in (1, 2) for w in ("peripheral", "cluster")]
     + [T("overlap", "noblocks", {"n": n}) for n in (1, 2, 3)],
     "Names (in any letter case) and addresses are symbolic; what is left out, kept and reported is compared with the statement.",
     "up to 3 siblings, any text of 7 to 10 characters near the word reserved, 64-bit addresses",
     {"siblings": 3, "name_chars": 10})


# ------------------------------------------------------------------------------------------------- whole processing
MINI = ["list", "array", "enum", "field", "inherit", "derive", "refused"]
prop("C29", lambda tier: [T("history", "untouched", {"shape": s}) for s in RICH]
     + [T("history", "again", {"shape": s, "between": b}) for s in RICH for b in ("nothing", "refused", "other")]
     + [T("history", "warnings_again", {"shape": s}) for s in ("overlapping", "alternates", "bits")] + [T("history", "refused")]
     + [T("history", "sequence", {"kinds": [a, b]}) for a in MINI for b in MINI if (a, b) != ("refused", "refused")]
     + [T("history", "sequence", {"kinds": k}) for k in (["list", "refused", "list"], ["enum", "refused", "enum"], ["derive", "refused", "derive"])]
     + [T("history", "documents", {"n": 2})],
     "Symbolic rich descriptions are compared attribute by attribute and object by object before and after processing and "
     "exporting, and results of repeated runs with each other.",
     "ten shapes of descriptions, two runs with none, an accepted or a refused other description in between; all pairs of seven "
     "small descriptions one after the other, and pairs of documents",
     {"shapes": 10, "runs": 3, "sequences": 52})
prop("C30", lambda tier: [T("cpu", "section", {"regions": n}) for n in (-1, 0, 1, 2, 3, 5, 9)] + [T("cpu", "none")],
     "A processor section with every part optional and symbolic.",
     "up to 3, and 5 and 9 regions, 64-bit addresses, all presence patterns",
     {"regions": 9})
prop("C31", lambda tier: [T("export", "model", {"shape": s}) for s in RICH]
     + [T("export", "xml", {"shape": s, "how": h, "optional": o}) for s in RICH for h, o in (("content", True), ("str", False))] + [T("export", "leftout")]
     + [T("export", "alike", {"what": w}) for w in ("per", "clu", "reg", "group", "fld", "enum")],
     "Symbolic rich devices are processed, exported, (written, read) and processed again; every attribute must be equal.",
     "ten shapes of descriptions with symbolic numbers, tokens and texts, and two siblings of every level whose texts are equal, empty "
     "or absent",
     {"shapes": 10})
prop("C32", lambda tier: [T("export", "regmap", {"shape": s}) for s in RICH],
     "The register map of symbolic rich devices is compared with the processed tree.",
     "ten shapes of descriptions with symbolic addresses",
     {"shapes": 10})


def c34(tier):
    names = ("X", "X%s", "X[%s]", "%s", "[%s]X", "X%s%s", "X%s[%s]")
    return ([T("robust", "numbers", {"kinds": k}) for k in (["dev"], ["per"], ["blk", "int"], ["clu"], ["inn"], ["reg"], ["fld"],
                                                            ["clu", "inn"], ["reg", "fld"], ["per", "blk"])]
            + [T("robust", "position", {"default": d}) for d in (False, True)]
            + [T("robust", "dims", {"level": l, "name": n}) for l in ("per", "clu", "reg", "fld") for n in names]
            + [T("robust", "texts", {"slot": i, "n": pick(tier, 2, 3), "dim": d}) for i in range(26) for d in pick(tier, (None,), (None, "list", "array"))]
            + [T("robust", "pairs", {"a": a, "b": b}) for a, b in
               ((13, 0), (14, 1), (15, 2), (17, 4), (18, 5), (15, 9), (9, 2), (11, 1), (12, 0))]
            + [T("robust", "digits", {"where": w}) for w in ("index", "range", "value")] + [T("robust", "widehex")]
            + [T("robust", "shapes"), T("robust", "processor"), T("robust", "constraint", {"level": "reg"}), T("robust", "constraint", {"level": "fld"})]
            + [T("robust", "regmap", {"kinds": k}) for k in (["per", "blk"], ["reg"], ["clu", "inn"])]
            + [T("robust", "document", {"lo": i, "hi": i + 20, "op": o}) for i in range(0, 60, 20)
               for o in ("drop", "clear", "twice", "unknown", "nested", "up", "notext", "comment")])


prop("C34", c34,
     "Descriptions with arbitrary numbers, texts, partial positions and arrays, missing parts, and mangled documents; every "
     "outcome must be a result or one of the documented errors, within the time limit of a path.",
     "numbers of 70 bits with sign (field widths up to 20), texts of 2 (thorough: 3) characters at 26 places, index ranges, bit ranges "
     "and literals of up to 9000 digits, 8 kinds of damage at each "
     "element of a document with one element of every kind",
     {"number_bits": 70, "text_chars": [2, 3], "places": 26, "damages": 8, "digits": 9000},
     "a default enumerated value of a field wider than 20 bits (one object per value); memory exhaustion")
prop("C35", lambda tier: [T("carried", "level", {"level": l, "place": p}) for l in ("dev", "per", "clu", "reg", "reg2", "fld") for p in ("plain", "nested", "array")]
     + [T("carried", "numbers")] + [T("carried", "lists", {"n": n}) for n in (2, 3, 6)],
     "Every attribute of every kind of element is optional and symbolic; the processed element must carry the stated value "
     "or the documented default.",
     "alone, in nested clusters and as array; up to 6 interrupts with any, also equal names and numbers; texts of 2 characters and 15 special ones, 64-bit numbers",
     {"places": 3, "attributes": 45, "text_chars": 2, "special_texts": 15})

prop("C36", lambda tier: [T("watch", "same", {"shape": s}) for s in RICH] + [T("watch", "graph", {"kind": k}) for k in ("chain", "broken", "nested")],
     "Symbolic descriptions are processed without and with a resolver log; outcome, reports and every attribute of the result must "
     "be equal, and the log that was written (unpacked) must name every element worked on and every reference resolved. Graphviz, "
     "an external program, is replaced by a stand-in that asks for the attributes of every node and edge.",
     "ten shapes of descriptions with symbolic values; chains, trees and broken references over five elements at peripheral, "
     "register and field level, and pending references inside derived containers",
     {"shapes": 10, "elements": 5},
     "the pictures graphviz draws, and what happens when graphviz or Pillow is not installed")
