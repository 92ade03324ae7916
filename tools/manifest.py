#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses in props/ and the list of what cannot be decided."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    tree = ast.parse(open(f, encoding="utf-8").read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in ("BOUNDS", "ASSUME"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    note = ("Bounded symbolic execution of the current source; z3 decides every branch and every "
            "assertion for all values within: " + vals["BOUNDS"] + ".")
    if vals.get("ASSUME"):
        note += " Assumptions: " + "; ".join(vals["ASSUME"]) + "."
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
        "technique": "symbolic execution of the instrumented Python source with z3 deciding each "
                     "path and assertion; counterexamples replayed on the plain code",
        "level": "model_checking",
        "level_note": note,
    })
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f,
              indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
