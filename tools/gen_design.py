"""DESIGN.md = tools/design_head.md + one section per property (from specs and tools/not_applicable.json) + the planted bugs"""
import json, os, sys, importlib, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [R + "/vc", R + "/specs"]
na = json.load(open(R + "/tools/not_applicable.json")); out = [open(R + "/tools/design_head.md").read()]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    if not os.path.exists(R + "/specs/%s.py" % i.lower()): out.append("Not applicable: %s.\n" % na.get(i, "not reached").rstrip(".")); continue
    m = importlib.import_module(i.lower())
    out.append("Under contract: %s\n" % m.NOTE.strip())
    a, b = getattr(m, "ASSUME", []), getattr(m, "BOUNDED", [])
    if a: out.append("Assumed: %s.\n" % "; ".join(a))
    out.append("Bounded stand-ins (not proved): %s.\n" % ("; ".join(b) if b else "none"))
out.append("## Planted bugs and what catches them\n\nEach is caught by the check of its own property (proof obligation fails; the harness then replays a failing input, except where marked).\n\n| bug | property | needs | breaks |\n|---|---|---|---|")
res = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); out.append("| %s%s | %s | %s | %s |" % (n, res.get(n, ""), j["property"], j["needs"], j["what_it_breaks"]))
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
