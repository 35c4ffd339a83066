#!/usr/bin/env python3
"""regenerate MANIFEST.json from specs/ (claimed = has a spec module) and tools/not_applicable.json"""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []; nal = []
for i in ids:
    p = os.path.join(R, "specs", i.lower() + ".py")
    if os.path.exists(p) and i not in na:
        ns = {}
        for l in open(p):
            m = re.match(r"^(NOTE|TECH|LEVEL) = (.*)$", l)
            if m: ns[m.group(1)] = eval(m.group(2))
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
          "technique": ns.get("TECH", "contract-based deductive verification of the clang AST of /repo's functions (SMT-discharged obligations, inferred inductive loop invariants)"),
          "level": ns.get("LEVEL", "proof"), "level_note": ns["NOTE"]})
    else: nal.append({"property": i, "reason": na.get(i, "no contract check built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": nal,
  "hooks": {"guard": "none", "enable": "no hooks are needed: the checks read the sources in /repo unmodified", "source_commits": []},
  "notes": "Checks print KNOWN-FINDING lines from known_findings.txt. See DESIGN.md."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nal), "not")
