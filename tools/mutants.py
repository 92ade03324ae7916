#!/usr/bin/env python3
"""tools/mutants.py SPEC.py [WORD...]: try edits of the code against the quick checks.

A spec lists MUTANTS = [(property, file, old, new[, file, old, new...]), ...].  Every edit is made in a scratch copy of /repo; with --tests the
stable tests are run as well.  Prints which are caught."""
import os
import re
import runpy
import shutil
import subprocess
import sys

TESTS = "--tests" in sys.argv


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    tag = f"/tmp/mutants-{os.getpid()}"
    runner = re.sub(r"/repo\b", repo, open("/opt/vp/run_tests.py").read())
    open(tag + "-run.py", "w").write(runner)
    test = re.sub(r"/repo\b", repo, open("/opt/vp/test.sh").read()).replace("/opt/vp/run_tests.py", tag + "-run.py")
    open(tag + "-test.sh", "w").write(test)
    run(["bash", tag + "-test.sh", tag + ".json"], cwd=repo)
    t = run([sys.executable, "/verif/tools/stable.py", tag + ".json"]).stdout
    for s in ("-run.py", "-test.sh", ".json"):
        if os.path.exists(tag + s):
            os.unlink(tag + s)
    return "broken: none" in t


def main():
    args = [a for a in sys.argv[1:] if a != "--tests"]
    muts = runpy.run_path(args[0])["MUTANTS"]
    words = args[1:]
    repo = f"/tmp/mutants-{os.getpid()}"
    shutil.copytree("/repo", repo, symlinks=True)
    n = caught = 0
    try:
        for i, (prop, *edits) in enumerate(muts):
            if words and not any(w == prop or w == str(i) for w in words):
                continue
            edits = [edits[k:k + 3] for k in range(0, len(edits), 3)]
            before = {}
            bad = False
            for f, old, new in edits:
                p = f"{repo}/libff/{f}"
                s = open(p, encoding="utf-8").read()
                before.setdefault(p, s)
                if s.count(old) != 1:
                    print(f"{i} {prop} {f}: {s.count(old)} occurrences of {old!r}", flush=True)
                    bad = True
                    break
                open(p, "w", encoding="utf-8").write(s.replace(old, new))
            if bad:
                for p, s in before.items():
                    open(p, "w", encoding="utf-8").write(s)
                continue
            try:
                env = dict(os.environ, SX_REPO=repo, SX_EVID=repo + "-ev", VERIF_SEED="1", VERIF_TIER="quick")
                c = run(["/verif/check", prop], cwd="/verif", env=env)
                hit = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
                t = "" if not TESTS else " tests pass" if tests(repo) else " TESTS FAIL"
                n += 1
                caught += hit
                print(f"{i} {prop} {'caught' if hit else 'MISSED rc=%d' % c.returncode}{t} {f}: {new.strip().splitlines()[0][:70] if new.strip() else 'DEL ' + old.strip()[:60]}"
                      + ("" if hit else "\n   " + "\n".join(l for l in c.stdout.splitlines() if "UNDECIDED" in l or "quick" in l)[-400:].replace("\n", "\n   ")), flush=True)
            finally:
                for p, s in before.items():
                    open(p, "w", encoding="utf-8").write(s)
    finally:
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(repo + "-ev", ignore_errors=True)
    print(f"{caught} of {n} caught")


main()
