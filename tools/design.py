#!/usr/bin/env python3
"""Fills in the generated parts of DESIGN.md: planted bugs and the table of bounds and costs."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json", encoding="utf-8"))
s = open(V + "/DESIGN.md", encoding="utf-8").read()
rows = []
for c in m["checks"]:
    p = c["property"]
    note = c["level_note"].split("for all values within: ", 1)[1]
    cost = ""
    for tier in ("quick",):
        try:
            e = json.load(open(f"{V}/evidence/{p}.json", encoding="utf-8"))
            cov = e["coverage"]
            cost = (f" *Last {e['tier']} run: {cov['cases']} cases, {cov['paths']} paths, {cov['queries']} queries, "
                    f"{len(cov['functions_encoded'])} functions.*")
        except (OSError, KeyError):
            m2 = re.search(rf"^\* \*\*{p}\*\*.*?(\*Last .*?\*)$", s, re.M)
            cost = " " + m2.group(1) if m2 else ""
    rows.append(f"* **{p}** {note}{cost}")
bugs = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f, encoding="utf-8"))
    bugs.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(f)))
missed = set()
if os.path.exists(V + "/plants/missed.txt"):
    missed = set(open(V + "/plants/missed.txt").read().split())
lines = ["| check | planted bugs it catches | misses |", "|---|---|---|"]
for p in sorted(bugs):
    lines.append(f"| {p} | {', '.join(b for b in bugs[p] if b not in missed) or '-'} | "
                 f"{', '.join(b for b in bugs[p] if b in missed) or '-'} |")


def put(s, name, text):
    a, b = s.split(f"<!-- {name} -->", 1)
    b = re.sub(r"^\n.*?(?=\n## |\Z)", "", b, count=1, flags=re.S)
    return a + f"<!-- {name} -->\n\n" + text + "\n" + b


s = put(s, "plants", "\n".join(lines))
s = put(s, "table", "\n".join(rows))
open(V + "/DESIGN.md", "w", encoding="utf-8").write(s.rstrip("\n") + "\n")
