#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/registry.py (single source of the property texts)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import registry
props, checks, na = [], [], []
for pid, r in sorted(list(registry.REG.items()) + list(registry.NA.items())):
    props.append({"id": pid, "title": r["title"], "statement": r["statement"],
                  "quantifier": {"over": r["over"], "text": r["quant"]}, "why_tests_cant": r["why"],
                  "anchors": {"files": r["files"], "mechanism": [{"name": a, "where": b} for a, b in r["mech"]]}})
    if pid in registry.REG:
        checks.append({"property": pid, "quick_cmd": "python3 /verif/check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % pid,
                       "technique": "static analysis: " + r["technique"], "level": "other", "level_note": r["note"]})
    else:
        na.append({"property": pid, "reason": r["reason"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 /verif/sa/facts.py", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: a rustc_private driver dumps the type-checked MIR of /repo's working tree on every run and Python rules decide each property. No hooks in /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
out = [open(os.path.join(HERE, "tools", "DESIGN.head.md")).read().rstrip(), "", "## 6. Properties", ""]
for pid, r in sorted(registry.REG.items()):
    out += ["### %s %s" % (pid, r["title"]), "", "*Method:* %s. %s" % (r["technique"], r["explanation"]), "",
            "*Quantifies over:* %s. *Beyond tests:* %s" % (r["quant"], r["why"]), "", "*Limits:* %s" % r["note"], ""]
out += ["## 7. Not applicable to static analysis here", ""]
out += ["* **%s %s** %s" % (pid, r["title"], r["reason"]) for pid, r in sorted(registry.NA.items())]
cj = os.path.join(HERE, "tools", "catches.json")
if os.path.exists(cj):
    hits = json.load(open(cj))
    out += ["", "## 8. Planted bugs and the checks that report them", "",
            "Each is kept in seeded/ with a demonstration; `tools/catches.py` ran every check on every one of them (`!`: no answer).", "",
            "| planted bug | breaks | what | reported by |", "|---|---|---|---|"]
    for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (sid, m["property"], m["what_it_breaks"].replace("|", "/"), " ".join(hits.get(sid, ["not run"])) or "none"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
