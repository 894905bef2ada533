#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from gen/props.py (the single source of both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": p["files"][0]}]}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 engine/facts.py", "checks": checks, "not_applicable": na,
           "notes": props.NOTES}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# ------------------------------------------------------------------ DESIGN.md
import glob
out = [open(os.path.join(HERE, "design_head.md")).read()]
for p in props.PROPS:
    out.append("### %s: %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
    if "na" in p:
        out.append("*Not applicable.* %s\n\n" % p["na"])
        continue
    n = p["note"][:-len(props.ASSUME)]
    out.append("*Quantified over* %s. *Tests cannot settle it:* %s\n\n*Decided by* %s. %s\n\n*Code:* %s\n\n" % (
        p["quant"], p["why"], p["tech"], n, ", ".join("`%s`" % f for f in p["files"])))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
out.append("## 3. Defects repaired in /repo\n\nEach is a `fix:` commit of its own; the check named reports the violation again if the defect returns.\n\n")
out += ["- %s `%s`: %s\n" % (k["property"], k["commit"], k["what"].split(k["commit"], 1)[-1].strip()) for k in kf if k["state"] == "fixed"]
out.append("\n## 4. Known findings (genuine, not repaired)\n\n")
out += ["- %s (key `%s`): %s\n" % (k["property"], k["key"], k["what"]) for k in kf if k["state"] == "known"]
out.append(props.KNOWN_WHY)
out.append("\n## 5. Planted bugs, and what catches them\n\n")
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out.append("- `%s` (caught by %s): %s. Needs: %s.\n" % (f.split("/")[-2], d.get("caught_by", d["property"]), d["what_it_breaks"], d["needs"]))
out.append(open(os.path.join(HERE, "design_tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
