"""Write DESIGN.md: tools/design_head.md, the per-property table from properties.jsonl and registry.py, the planted bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry  # noqa: E402

ORACLE = {
    "C01": "arithmetic denotation of the digits, written in the harness (Horner sum per base)",
    "C02": "token lists of the format kept in the harness",
    "C03": "the abstract tree (`svdxml.Node`) from which both the document and the expected model are built",
    "C04": "the parsed tree of the plain document, and the list of reports expected",
    "C05": "the order of attempts written down in the harness; equality of results across forms",
    "C06": "the tree before writing",
    "C07": "packaged schema 1.3.11, read by `oracle/xsd.py`",
    "C08": "the formula offset + i * increment and the index texts",
    "C09": "an automaton of the documented forms (`dimindex.py`)",
    "C10": "nearest-stated-else-default fold over the levels",
    "C11": "max over children with nearest stated size",
    "C12": "own else base else enclosing else default fold",
    "C13": "the base's children plus own ones; object identity for sharing; the same device without the derived element",
    "C14": "candidates enumerated over the abstract tree with symbolic name equality",
    "C15": "acyclicity of the chosen reference graph",
    "C16": "self-composition: the device of the first order",
    "C17": "sum of the symbolic offsets", "C18": "max/min/sum over the symbolic extents",
    "C19": "pairwise order of neighbours, each mark exactly once",
    "C20": "denotation of each notation; an automaton for range texts",
    "C21": "pairwise: share a bit and a direction", "C22": "pairwise distinctness of symbolic names",
    "C23": "Horner sum / pattern expansion / automaton", "C24": "coverage of 0..2^w-1 exactly once",
    "C25": "pairwise distinctness, first-of-equals", "C26": "the usage table of the statement",
    "C27": "pairwise byte ranges and alternate declarations", "C28": "reserved/empty/alignment predicates of the statement",
    "C29": "self-composition: snapshot (values and object identities) before and after, runs against each other",
    "C30": "stated-else-default per attribute", "C31": "self-composition: the processed device before export",
    "C32": "the processed tree", "C33": "the symbolic verdict", "C34": "the set of documented exceptions; a time limit per path",
    "C36": "the outcome of the same description without a log; names and references of the description against the log's text",
    "C35": "stated-else-default per attribute; decoy values at all other levels",
}


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md"), encoding="utf-8").read(), "## Properties\n"]
    cost = {}
    cf = os.path.join(HERE, "tools", "cost.json")
    if os.path.exists(cf):
        cost = json.load(open(cf))
    for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(line)
        r = registry.PROPERTIES[p["id"]]
        mods = sorted({t["module"].replace("props.", "props/") + ".py: " + ", ".join(sorted({u["harness"] for u in r["tasks"]("quick") if u["module"] == t["module"]}))
                       for t in r["tasks"]("quick")})
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(r["note"] + "\n")
        out.append(f"* Oracle: {ORACLE[p['id']]}.")
        out.append(f"* Bounds: {r['bounds_text'].rstrip('.')}.")
        if r["outside"]:
            out.append(f"* Outside: {r['outside'].rstrip('.')}.")
        out.append("* Harnesses: " + "; ".join(mods) + f" ({len(r['tasks']('quick'))} tasks, thorough {len(r['tasks']('thorough'))}).")
        if p["id"] in cost:
            c = cost[p["id"]]
            out.append(f"* Cost (quick, 8 cores): {c['paths']} paths, {c['queries']} queries, {c['wall']:.0f} s.")
        out.append("")
    out.append("## Planted bugs\n")
    tab = json.load(open(os.path.join(HERE, "tools", "catches.json"))) if os.path.exists(os.path.join(HERE, "tools", "catches.json")) else {}
    out.append("Each is a patch in `seeded/` that keeps the existing tests passing, with a demonstration. Catch = the quick check of the\nproperty it was written against exits 1 with a reproduced counterexample.\n")
    out.append("| change | property | needs | caught by |")
    out.append("|---|---|---|---|")
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {'its property' if 'VIOLATION' in tab.get(d, '') else tab.get(d, 'not yet run')} |")
    out.append("")
    tail = os.path.join(HERE, "tools", "design_tail.md")
    if os.path.exists(tail):
        out.append(open(tail, encoding="utf-8").read())
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))


main()
