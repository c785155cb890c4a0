"""Assemble DESIGN.md from tools/design_head.md, design_text.py, the check modules and tools/design_tail.md."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), os.environ.get("MC_REPO", "/repo")]
from design_text import TEXT

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    how, why = TEXT[p["id"]]
    cost = ""
    ev = os.path.join(ROOT, "tools", "costs.json")
    if os.path.exists(ev):
        c = json.load(open(ev)).get(p["id"])
        if c:
            cost = "quick: {wall_s:.0f} s, {cases} cases, {states} states, {transitions} operations, {traces} validated traces".format(**c)
    out += ["### {} {}".format(p["id"], p["title"]), "",
            "- **Explored and compared**: " + how,
            "- **Why tests cannot**: " + why,
            "- **Bounds (quick)**: " + m.BOUNDS["quick"],
            "- **Bounds (thorough)**: " + m.BOUNDS["thorough"],
            "- **Assumptions**: " + "; ".join(m.ASSUMPTIONS) + "."]
    if cost:
        out.append("- **Cost**: " + cost)
    out.append("")
notes = json.load(open(os.path.join(ROOT, "tools", "seed_notes.json")))
table = ["| change | needs | missed at first: strengthened |", "|---|---|---|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json")))
    star = "*" if name in notes else ""
    table.append("| {}{} | {} | {} |".format(name, star, meta["needs"].replace("|", "/").replace("\n", " "), notes.get(name, "")))
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip()
out.append(tail.replace("SEEDTABLE", "\n".join(table)))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
