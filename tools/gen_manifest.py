#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness in harness/P*.cpp."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    src = f"{V}/harness/{i}.cpp"
    if os.path.exists(src):
        s = open(src).read()
        m = re.search(r"^// TECHNIQUE: (.*)$", s, re.M)
        n = re.search(r"^// NOTE: (.*)$", s, re.M)
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.group(1) if m else "property-based testing against a reference model",
            "level": "exploration",
            "level_note": n.group(1) if n else "Randomised search with shrinking under ASan/UBSan; holds on every generated case, no exhaustiveness claimed.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks}
if na:
    m["not_applicable"] = na
m["notes"] = "Known findings: known-findings.txt. Replay a failure with build/bin/<ID> --replay <file>."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
