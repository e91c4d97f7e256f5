#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist in the harness."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(ROOT, "harness", f)).read()
              for f in sorted(os.listdir(os.path.join(ROOT, "harness")))
              if f.endswith(".go"))
have = set(re.findall(r'Add\(\s*"(C\d\d)"', src))
T = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    t = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t["technique"],
        "level": t.get("level", "exploration"),
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the "
              "exported API of the unmodified packages",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds harness/ (a Go program using rapid) against "
             "/repo's working tree and drives the exported API; replay a "
             "reported case with: python3 check.py <id> --replay <file>. "
             "Genuine defects that were found and fixed are listed in "
             "known-findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
