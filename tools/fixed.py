"""tools/fixed.py PROP TEXT: record the last commit in /repo as a repaired defect."""
import json
import subprocess
import sys

p = "/verif/known-findings.json"
d = json.load(open(p))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(
    ["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
d["fixed"].append(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}")
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
