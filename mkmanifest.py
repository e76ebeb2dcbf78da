"""Write MANIFEST.json from the checks present (run by hand after adding a check)."""
import importlib.util
import json
import os
import re
here = os.path.dirname(os.path.abspath(__file__))
checks, have = [], set()
TECH = {}
for f in sorted(os.listdir(here + "/checks")):
    m = re.match(r"(p\d\d)_\w+\.py$", f)
    if not m:
        continue
    src = open(here + "/checks/" + f).read()
    pid = m.group(1).upper()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    tech = re.search(r'^TECHNIQUE = "(.+)"', src, re.M)
    note = re.search(r'^NOTE = \(?((?:\s*"[^\n]*"\n?)+)', src, re.M)
    tech = tech.group(1) if tech else "explicit enumeration of all bounded inputs, executed on the real code against an independent oracle"
    note = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', note.group(1))) if note else \
        "Complete within the stated bounds; trusts the independent oracle and numpy/scipy."
    have.add(pid)
    checks.append({"property": pid, "quick_cmd": "bash run.sh " + pid, "thorough_cmd": "bash run.sh %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
na = [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in have]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks drive the public functions of pyowc and observe its files."},
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
