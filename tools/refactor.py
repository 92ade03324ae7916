#!/usr/bin/env python3
"""tools/refactor.py SPEC.py [PROP...]: apply edits that keep the behaviour to a copy of /repo, run the stable tests and the
checks (VERIF_TIER=quick), which have to stay quiet.  -k keeps the copy, -j N runs N checks at a time."""
import concurrent.futures
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(__file__))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    tag = f"/tmp/refactor-{os.getpid()}"
    runner = re.sub(r"/repo\b", repo, open("/opt/vp/run_tests.py").read())
    open(tag + "-run.py", "w").write(runner)
    test = re.sub(r"/repo\b", repo, open("/opt/vp/test.sh").read()).replace("/opt/vp/run_tests.py", tag + "-run.py")
    open(tag + "-test.sh", "w").write(test)
    run(["bash", tag + "-test.sh", tag + ".json"], cwd=repo)
    t = run([sys.executable, "/verif/tools/stable.py", tag + ".json"]).stdout
    for s in ("-run.py", "-test.sh", ".json"):
        if os.path.exists(tag + s):
            os.unlink(tag + s)
    return t


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    repo = f"/tmp/refactor-{os.path.basename(args[0])[:-3]}"
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    for n, (f, old, new) in enumerate(runpy.run_path(args[0])["EDITS"]):
        p = f"{repo}/{f}"
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            sys.exit(f"edit {n} {f}: {s.count(old)} occurrences of {old[:80]!r}")
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    if "-n" not in sys.argv:
        print(tests(repo), flush=True)
    props = args[1:] or sorted(f[:-3].upper() for f in os.listdir("/verif/props") if re.fullmatch(r"c\d+\.py", f))
    env = dict(os.environ, SX_REPO=repo, SX_EVID=repo + "-ev", VERIF_SEED="1", VERIF_TIER="quick")

    def one(p):
        t = time.time()
        c = run(["/verif/check", p], cwd="/verif", env=env)
        return p, c, time.time() - t
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for p, c, t in ex.map(one, props):
            und = [l for l in c.stdout.splitlines() if "UNDECIDED" in l or "VIOLATION" in l]
            if c.returncode or und:
                print(f"{p} rc {c.returncode} {t:.0f}s", flush=True)
                print("   " + "\n   ".join(l[:300] for l in und[:4]), flush=True)
                if c.returncode:
                    open(f"/tmp/refactor.{p}.out", "w").write(c.stdout)
            else:
                print(f"{p} ok {t:.0f}s", flush=True)
    if "-k" not in sys.argv:
        shutil.rmtree(repo)
    shutil.rmtree(repo + "-ev", ignore_errors=True)


main()
