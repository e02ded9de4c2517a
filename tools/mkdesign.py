"""Writes DESIGN.md from tools/design_head.md, the RULE and BOUNDS of each check, tools/design_tail.md and seeded/."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda p: open(os.path.join(ROOT, p)).read()


def consts(path):
    out = {}
    for n in ast.parse(r(path)).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "BOUNDS") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


WHY = json.load(open(os.path.join(ROOT, "tools/design_why.json")))
out = [r("tools/design_head.md").rstrip(), "", "## Properties and how each is decided", ""]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    c = consts("hsa/checks/%s.py" % p["id"].lower())
    why = WHY.get(p["id"], {})
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "* Decided by: " + c["RULE"], "* Oracle: " + why.get("oracle", ""), "* Bounds: " + c["BOUNDS"],
            "* Cost (8 cores): " + why.get("cost", ""), "* Beyond tests: " + why.get("why", ""), ""]
out += [r("tools/design_tail.md").rstrip(), "", "## Planted bugs and the checks that catch them", "",
        "Each was written from the property and the code, confirmed in a scratch copy (tests pass, demo fails), and run against the check of its property (tools/plant.py).", "",
        "| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(ROOT, "tools/caught.json"))) if os.path.exists(os.path.join(ROOT, "tools/caught.json")) else {}
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], caught.get(b, "?")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
