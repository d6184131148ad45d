import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=["src/svdsuite/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
PARSE="Parser.from_* / get_parsed_device"
PROC="Process(...).get_processed_device()"
SER="Serializer.device_to_str / device_to_file / convert helpers"
p("C01","Numeric literals denote the value their notation stands for",
 "Every number of a description is read as the value its notation denotes: plain decimal (leading zeros and an explicit plus sign allowed), 0x/0X hexadecimal in either letter case, and # or 0b binary. A text that is no such number is never read as some other number, it is refused with an error.",
 "every literal of bounded length over digits, hex letters, prefixes and signs, at every numeric element of the description",
 "The tests sample a few literals per element; a slip for one digit class, prefix or leading-zero form at one element is invisible to them.",
 ["parse.py"],[("_to_int","parse.py")],observe=[PARSE])
p("C02","Boolean and enumerated tokens are read exactly",
 "Each boolean element accepts true/false in any letter case and 1/0, and each enumerated element accepts exactly the tokens the CMSIS-SVD format lists for it (processor names in any letter case), yielding the value the token names. Any other token is refused, or, for access types, reported and treated as not given; it never turns into another value.",
 "every token of bounded length at every boolean and enumerated element",
 "Tests use the valid tokens at a handful of elements; near-miss tokens, case variants and every element are beyond sampling.",
 ["parse.py","model/types.py"],[("_to_bool, from_str","parse.py, model/types.py")],observe=[PARSE])
p("C03","Parsing transfers every element and attribute to its own place",
 "A parsed description contains exactly the elements of the document, in document order, each value in the attribute of its own name at its own nesting level, with absent optional elements left unset and absent mandatory elements refused. Every nested element knows the element that contains it.",
 "all combinations of present/absent optional elements and all their values, at every level (device, cpu, peripheral, address block, interrupt, cluster, register, write constraint, field, enumerated values, dim array index)",
 "The tests parse fixed documents with most elements present; wrong transfer under a particular combination of absent elements or equal values goes unnoticed.",
 ["parse.py"],[("Parser._parse_*","parse.py")],observe=[PARSE])
p("C04","Repeated elements and surrounding whitespace never change the meaning",
 "If an element holding a value is repeated where one may occur, the last occurrence counts and a warning is issued; whitespace around a value is dropped with a warning (except in free texts such as descriptions, which are kept verbatim); several register or field containers are read as one; comments have no influence. An empty mandatory text is refused.",
 "every whitespace padding of bounded length and every multiplicity of each once-only element",
 "Tests check one padding and one duplicate at selected elements.",
 ["parse.py","util/xml_parse.py"],[("_parse_element / duplicate handling","parse.py")],observe=[PARSE])
p("C05","Reading a description depends on its content, not on how it is handed over",
 "Reading the same document from a file path, from an XML string, or from bytes with or without byte order mark gives equal results. The document is first read as it declares itself; if that fails, utf-8, windows-1252, iso-8859-1, utf-16 and ascii are tried in this order, strictly first and then recovering, the first success decides and is reported as a fallback. If no attempt succeeds, the error of the first attempt is raised.",
 "every pattern of failing/succeeding encoding attempts and every input kind",
 "Tests use one UTF-8 and one legacy encoded file; the fallback order over all failure patterns is not sampled.",
 ["parse.py","util/xml_parse.py","validate.py"],[("safe_parse","util/xml_parse.py")],("inputs","fault_sequences"),observe=[PARSE])
p("C06","Serializing and re-reading a description loses nothing",
 "Writing a parsed description to XML and reading the result again yields an equal description: every element, attribute, number, token and text, at every nesting level, whether optional parts are present or absent.",
 "all combinations of present/absent optional parts and all numeric, boolean, enumerated and text values",
 "Round-trip tests use a few complete fixed devices; a value dropped or formatted wrongly only when zero, false, empty or alone is not sampled.",
 ["serialize.py","parse.py"],[("DeviceSerializer and its helpers","serialize.py")],observe=[SER])
p("C07","Serialized documents follow the order and formats of the CMSIS-SVD schema",
 "Every written document places child elements in the order required by the CMSIS-SVD 1.3 schema, uses only elements the schema allows at that place, contains the mandatory ones that were given, and writes every number, boolean and token in a form the schema accepts.",
 "all combinations of present/absent optional parts and all values",
 "The schema order is a property of all 2^n combinations of optional elements; tests compare a few fixed outputs.",
 ["serialize.py","schema/1.3.11.xsd"],[("serializer element order","serialize.py")],observe=[SER])
p("C08","Arrays and lists expand to one element per index",
 "An element with a dim count expands to exactly that many elements; each has the placeholder replaced by its own index text in the name and in the display name, lies at its offset (or bit position) plus its position times the increment, and carries everything else of the template. Misuse (placeholder without count, count below 1, unsuitable placeholder or display name) is refused, and a count without placeholder is reported and ignored.",
 "all counts and increments within bounds, all addresses, all index forms, at peripheral, cluster, register and field level, alone and nested",
 "Tests fix one count and increment per level.",
 ["process.py"],[("dim processing","process.py")],observe=[PROC])
p("C09","Index lists denote exactly the indices they spell",
 "A numeric range denotes all its numbers in ascending order, a letter range all its letters, and a comma separated list its entries in order with blanks after a comma ignored; the number of indices must equal the count. Any other text is refused.",
 "all texts of bounded length over digits, letters, separators and blanks",
 "Tests try a few lists; malformed and boundary forms are unbounded in number.",
 ["process.py"],[("dimIndex evaluation","process.py")],observe=[PROC])
p("C10","Unstated properties come from the nearest enclosing level that states them",
 "Access, protection, reset value and reset mask of every register (and access and write constraint of every field) are those stated on the element, else on its nearest enclosing cluster, peripheral or device that states them, else the documented defaults (read-write, any, 0, all ones).",
 "every subset of levels stating each property and all stated values",
 "2^levels combinations per property times values; tests pick a few.",
 ["process.py"],[("property inheritance","process.py")],observe=[PROC])
p("C11","Containers are as wide as their widest child, unsized elements follow",
 "A cluster's or peripheral's effective size is the largest effective size of its direct children, where a child that states no size counts with the nearest stated size above it; a register that states none gets its container's effective size. Register sizes that are not whole bytes are reported and left out; sizes other than 8, 16, 32, 64, 128 bits are refused.",
 "every subset of levels stating a size and all sizes, in nested clusters and arrays",
 "Tests fix individual size combinations.",
 ["process.py"],[("size adjustment","process.py")],observe=[PROC])
p("C12","A derived element takes over exactly what it does not state itself",
 "An element derived from another (peripheral, cluster, register, field) has each property it states itself, and takes every other inheritable property from its base, before any enclosing level is consulted; name and position are its own. A derived enumeration has the values of its base. What the format excludes from derivation (interrupts, and a peripheral's header struct name) is never taken over.",
 "every subset of properties stated on the derived and on the base element and all values, at every level, over chains of derivation",
 "The number of stated/unstated combinations is exponential; tests fix a few.",
 ["process.py"],[("inheritance of derived elements","process.py")],observe=[PROC])
p("C13","Derived containers carry all children of their base and stay independent",
 "A derived peripheral, cluster or register contains its own children together with those of its base, placed relative to its own address and sharing nothing with the base, so the base comes out the same with and without it. A child defined on both is refused.",
 "all addresses, increments and children mixes at each level and along chains",
 "Tests check a few fixed trees; aliasing and wrong relocation show only for particular shapes and orders.",
 ["process.py"],[("replication of base children","process.py")],observe=[PROC])
p("C14","Derivation references name exactly one element and are resolved to it",
 "A reference is looked up among the siblings of the referring element first and, failing that, from the device's peripherals, by the full dotted path and only among elements of the same kind. If it names several candidates or none it is refused.",
 "all assignments of names to elements (equal or different) and all reference paths of bounded depth",
 "Scoping errors appear only for particular name coincidences between scopes; tests use distinct names.",
 ["resolve/resolver.py","resolve/graph_builder.py"],[("reference resolution","resolve/resolver.py")],observe=[PROC])
p("C15","Circular or dangling derivations end in an error",
 "Any set of references among elements is either fully resolved or the description is refused with the documented error: a cycle of any length, a self reference or a dangling reference never loops, hangs or yields a partial result; every acyclic, resolvable set is accepted.",
 "every reference graph over a bounded number of peripherals, registers, fields and enumerations",
 "The number of reference graphs is exponential; tests contain a few cycles.",
 ["resolve/resolver.py"],[("resolver loop","resolve/resolver.py")],observe=[PROC])
p("C16","The order of declaration does not matter",
 "Permuting sibling peripherals, clusters, registers, fields or enumerated values in a description with distinct addresses and names yields the same processed device.",
 "every permutation of the siblings of bounded trees with derivations between them, all addresses",
 "n! orders times derivation patterns; tests use the natural order.",
 ["process.py","resolve/resolver.py"],[("resolution order, final sorting","process.py, resolve/")],observe=[PROC])
p("C17","Absolute addresses are the sum of the offsets on the path",
 "Every cluster and register of a processed device has as absolute address the base address of its peripheral plus the offsets of all enclosing clusters plus its own, including array increments and derived copies.",
 "all addresses, offsets, increments and nesting shapes within bounds",
 "Tests use fixed small addresses.",
 ["process.py"],[("address computation","process.py")],observe=[PROC])
p("C18","Extents cover exactly what is declared",
 "The effective end of a cluster or peripheral is the last byte of its furthest register, the specified end of a peripheral is the last byte of its furthest address block, the effective size is the length in bytes from the address to the effective end, and the specified size is the sum of the sizes of the address blocks.",
 "all addresses, sizes and block layouts within bounds, including nested clusters and several address blocks in any order",
 "Tests use single blocks and tidy layouts.",
 ["process.py"],[("end address and size computation","process.py")],observe=[PROC])
p("C19","Processed devices are complete, duplicate free and sorted",
 "Everything declared appears exactly once: peripherals by base address, registers and clusters by address, fields by lowest bit, enumerated values by value, address blocks by offset and interrupts by number, ties among peripherals, registers and clusters broken by name; the flat register list of a peripheral holds each register of the tree once, by address.",
 "all addresses and orders within bounds",
 "Ties and interleavings of nested registers occur for special addresses only.",
 ["process.py"],[("sorting and flattening","process.py")],observe=[PROC])
p("C20","All bit range notations denote the same bits",
 "A field given by offset and width, by lowest and highest bit, or by a bit range text lies at exactly these bits; an incomplete or malformed position is refused, and a swapped range text is reported and read in the right order. If several notations are given, the range text wins over lowest/highest bit, which wins over offset and width.",
 "all positions and widths within the register, all texts of bounded length, all subsets of notations",
 "Tests fix a few positions per notation.",
 ["process.py"],[("bit position conversion","process.py")],observe=[PROC])
p("C21","Fields conflict exactly when they share bits in the same access direction",
 "Two fields of a register that overlap in at least one bit are refused if both can be read or both can be written (only read-only cannot be written, only write-only cannot be read), and accepted if one is read-only and the other write-only; fields that share no bit are always accepted. A field beyond the register's size is reported.",
 "all positions, widths and access types of up to four fields",
 "Boundary overlaps by one bit and triples with alternating directions are not sampled.",
 ["process.py"],[("field overlap validation","process.py")],observe=[PROC])
p("C22","Names are unique among siblings",
 "Two peripherals, two fields of a register, or two registers or clusters of one container with the same name are refused, registers in different alternate groups excepted; equal names in different containers are accepted. This holds for names created by expansion and derivation as well.",
 "all assignments of names and alternate groups to up to four siblings per level",
 "Tests duplicate one name per level; coincidences after expansion or with alternate groups are not sampled.",
 ["process.py"],[("duplicate checks","process.py")],observe=[PROC])
p("C23","Enumerated value literals denote exactly the values they match",
 "A decimal, hexadecimal (0x) or binary (# or 0b) literal, with an optional leading plus, denotes its number, and a binary literal with x positions denotes every number matching the pattern, each as an own value named after the pattern value. Any other text is refused.",
 "all literals of bounded length over digits, x and prefixes",
 "Tests use a few literals and patterns.",
 ["process.py"],[("enumerated value conversion","process.py")],observe=[PROC])
p("C24","A default enumerated value covers exactly the uncovered values",
 "If an enumeration has a default, the processed enumeration covers every value of the field: the stated values keep their name and description and each remaining value appears exactly once with a name and the description of the default. More than one default is refused.",
 "all field widths up to 5 bits and all sets of stated values",
 "Coverage is over all subsets of values; tests fix one.",
 ["process.py"],[("default expansion","process.py")],observe=[PROC])
p("C25","Enumerated values are unique, in range and sorted",
 "The values of a processed enumeration are pairwise distinct in value and name, fit the field's width, are sorted, and are not named reserved; the first of several equal ones is kept and every dropped one is reported.",
 "all values, names and widths of up to four enumerated values",
 "Coincidences of values, names and width boundaries are not sampled.",
 ["process.py"],[("enumerated value validation","process.py")],observe=[PROC])
p("C26","Enumerations of a field have consistent usages",
 "A field has at most two enumerations; two must be one for reading and one for writing; a single one applies to its stated usage (default read-write). Anything else is refused.",
 "all usages stated or not on up to three containers, own or derived",
 "Tests try some combinations.",
 ["process.py"],[("container usage validation","process.py")],observe=[PROC])
p("C27","Overlaps are reported unless declared as alternates",
 "Two peripherals, or two registers or clusters of one container, whose address ranges (from their address to their end) share a byte are reported if they are not declared alternates of each other, never if one names the other as its alternate, and no overlap is ever reported between elements that share no byte. Overlapping address blocks of a peripheral are reported.",
 "all addresses and sizes of up to three siblings and all alternate declarations",
 "Off-by-one boundaries and alternate chains are not sampled.",
 ["process.py"],[("overlap validation","process.py")],observe=[PROC])
p("C28","Ignored and misaligned elements are reported, everything else is kept",
 "Registers and fields named reserved, empty clusters and peripherals without registers are left out with a report, without affecting their siblings; peripheral addresses that are not word aligned and registers not aligned to their size are kept and reported. A peripheral without address block is refused.",
 "all addresses, sizes, letter cases and mixes of siblings",
 "Tests check one element at a time.",
 ["process.py"],[("validate and finalize","process.py")],observe=[PROC])
p("C29","Processing leaves its input untouched and is repeatable",
 "Processing does not modify the parsed description, and processing the same description again, also after an earlier run on the same or another description, gives an equal result.",
 "all values of rich descriptions with arrays, derivations and enumerations; histories of several runs in one program",
 "Tests process each description once.",
 ["process.py"],[("intermediate model","process.py")],("inputs","histories"),observe=[PROC])
p("C30","Processor information is taken over with the documented defaults",
 "The processed processor section states every value given in the description and the documented default for every value not given, including the security attribution regions with their addresses and access kinds; without a processor section there is none.",
 "all subsets of stated values and all values",
 "2^n subsets; tests use full and empty.",
 ["process.py"],[("cpu processing","process.py")],observe=[PROC])
p("C31","Exporting a processed device and processing it again changes nothing",
 "Converting a processed device back to a description and processing that description gives the same device: same elements, names, addresses, sizes, bits, access and enumerations; so does writing it to XML and reading it again.",
 "all values of processed devices with arrays, derivations, defaults and enumerations",
 "Tests convert a few fixed devices.",
 ["util/process_parse_model_convert.py","serialize.py"],[("conversion","util/process_parse_model_convert.py")],observe=[SER,PROC])
p("C32","The register map lists every register at its absolute address",
 "A peripheral's register map lists each register of the peripheral exactly once, in the order of addresses (container by container where containers interleave), with its absolute address, and its address range runs from the first to the last allocated byte over all address blocks.",
 "all addresses, nesting shapes and block layouts within bounds",
 "Tests use one peripheral.",
 ["map.py","model/map.py"],[("PeripheralRegisterMap","map.py")],observe=["PeripheralRegisterMap"])
p("C33","Schema validation reports the verdict for the right schema",
 "Validation uses the schema of the requested version (the latest one if none is requested), returns true exactly if that schema accepts the document, and otherwise returns the reported errors or raises them, as requested.",
 "every requested version, every verdict and error list, every input kind",
 "Tests validate one good and one bad file.",
 ["validate.py"],[("Validator","validate.py")],observe=["Validator"])
p("C34","Malformed descriptions are refused only with the documented errors",
 "Whatever the values of a description, processing it either succeeds or raises the documented processing error, and parsing it either succeeds or raises the documented parsing errors; no other exception escapes and nothing hangs.",
 "all numeric values (including zero, negative, inverted ranges), texts and reference graphs within bounds",
 "Crashes occur for unusual value combinations nobody wrote a test for.",
 ["parse.py","process.py","resolve/resolver.py"],[("error handling","process.py, parse.py")],observe=[PARSE,PROC])
p("C35","Processed elements carry what the description states",
 "Every text, number and token stated for a device, peripheral, address block, interrupt, cluster, register, field or enumeration appears unchanged on the processed element or elements made from it; what is not stated has the documented default (address block protection any, modified write values modify, enumeration usage read-write) and otherwise no value.",
 "all combinations of present/absent optional parts and all their values at every level, plain and within arrays",
 "Tests process a few descriptions with most parts absent; a value swapped with, or hidden by, another one is seen only for particular combinations.",
 ["process.py","model/process.py"],[("construction of the processed elements","process.py")],observe=[PROC])
p("C36","Asking for a resolver log changes nothing",
 "Processing a description with a resolver log requested gives the same outcome as without: the same processed device, the same reports, or the same refusal. Whether the description is accepted or refused, the log is written; that of an accepted one names every element that was worked on and every derivation reference that was resolved.",
 "all descriptions within the bounds: sound and broken reference graphs and rich descriptions with arbitrary values",
 "No test asks for a log; whether watching the resolver disturbs it depends on the reference graph.",
 ["resolve/logger.py","util/html_generator.py","resolve/graph.py"],[("ResolverLogger","resolve/logger.py"),("HTMLGenerator","util/html_generator.py")],observe=["Process(..., resolver_logging_file_path)"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["id"]
