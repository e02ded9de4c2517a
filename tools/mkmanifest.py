"""Writes MANIFEST.json from the checks present in hsa/checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "abstract interpretation of the package's syntax tree (value numbering, intervals, trace partitioning)"
SPECIAL = {
    "C13": "abstract interpretation of the usage modules against a table of the HID usage tables",
    "C19": "effect analysis: abstract interpretation recording every write to shared or argument objects",
}
NOTE = {
    "C01": "every item kind over its whole abstract 32-bit value range, and the ranges outside it: exhaustive for the property",
    "C02": "every item kind over its whole abstract value range: exhaustive for the property",
    "C03": "complete comparison of every exported code with the HID 1.11 tables in hsa/spec.py",
    "C04": "all 256 prefixes, abstract payload bytes, all truncation points; sequences bounded to a few items",
    "C05": "abstract payload bytes and abstract comment text; sequences bounded to a few items",
    "C06": "every item kind and flag bit, abstract values, abstract nesting depth in one step of the listing",
    "C07": "template streams with abstract attribute values plus complete enumeration of short streams over fixed alphabets; longer streams are not covered",
    "C08": "template streams with abstract attribute values; longer streams are not covered",
    "C09": "trees bounded in depth and width, abstract attribute values",
    "C10": "abstract bit offsets for one step of the layout, bounded sequences for the composition",
    "C11": "template streams bounded in length, abstract attribute values",
    "C12": "trees bounded in depth and width, abstract attribute values kept as holes in the dumped text",
    "C13": "complete over the usage modules",
    "C14": "every operator, abstract operands: exhaustive for the property",
    "C15": "abstract 32-bit codes; range lengths bounded where the code iterates",
    "C16": "every combination of given and omitted attributes, abstract values",
    "C17": "trees bounded in depth and width, abstract edits",
    "C18": "every option combination over a file model, bounded input streams",
    "C19": "bounded runs with every write recorded; repeated runs compared",
    "C20": "abstract item values and listing bytes; sequences bounded to 3 items",
}
TRUST = (" Trusts the engine's model of Python and of the few library functions the package uses (struct, re, argparse, files), and the reference rules in hsa/. "
         "A violation is only reported with a concrete witness of the abstract state; what the engine cannot decide is listed as undecided in the evidence and does not alarm.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "hsa/checks/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 -m hsa.run %s" % i, "thorough_cmd": "python3 -m hsa.run %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": SPECIAL.get(i, TECH), "level": "other",
                       "level_note": "Static analysis, nothing is run: " + NOTE[i] + "." + TRUST})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Everything is decided by hsa/, a static analyser for the package written for this task. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
