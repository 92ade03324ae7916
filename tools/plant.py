"""tools/plant.py SPEC.py [ID...]: create or refresh planted bugs.

A spec lists BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo)]; the result goes
to /verif/seeded/ID.  The demo is shell text (see PRELUDE).  The edit is tried in a scratch copy of /repo: it must build, pass
the stable tests, and the demonstration must pass without and fail with it.  Then the quick check of
the property is run against the copy (SX_REPO) and the outcome is printed."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

SEEDED = "/verif/seeded"


def run(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def demo(d, repo):
    """Run the demonstration with only its own files around."""
    tmp = f"/tmp/plant-demo-{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        return run(["bash", tmp + "/demo.sh"], cwd=repo, timeout=300)
    finally:
        shutil.rmtree(tmp)


PRELUDE = r'''#!/bin/bash
# Runs in the repository; exits 0 if the behaviour is right.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
unset FF_OPTIONS FF_PLUGIN_DIRS NO_COLOR LS_COLORS ${!PYTHON*}
export HOME=$T/home PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$repo TZ=UTC LANG=C.UTF-8
mkdir -p "$HOME/.cache" "$T/w"
ff() { timeout 60 python3 -O -m ff --no-cache -j 1 --no-parent-ignore "$@"; }
py() { timeout 60 python3 "$@"; }
# same WHAT GOT WANT
same() { if [ "$2" != "$3" ]; then printf '%s: got:\n%s\nexpected:\n%s\n' "$1" "$2" "$3"; exit 1; fi; }
cd "$T/w" || exit 99
'''


def plant(spec, do_check=True):
    spec = {k.upper(): v for k, v in spec.items()}
    spec["PROPERTY"] = spec["PROP"]
    sid = spec["ID"]
    d = f"{SEEDED}/{sid}"
    repo = f"/tmp/plant-{sid}"
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    try:
        for f, old, new in spec["EDITS"]:
            p = f"{repo}/{f}"
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return f"{sid}: {f}: {s.count(old)} occurrences of {old!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = run(["git", "-C", repo, "diff"]).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(PRELUDE + spec["DEMO"].lstrip())
        for name, text in spec.get("FILES", {}).items():
            open(f"{d}/{name}", "w").write(text)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                   "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        # lines removed must be of the original repository
        good = demo(d, "/repo")
        bad = demo(d, repo)
        if good.returncode or not bad.returncode:
            return f"{sid}: demo: unchanged {good.returncode}, changed {bad.returncode}\n" + \
                good.stdout[-1500:] + "\n--- changed\n" + bad.stdout[-1500:]
        out = f"/tmp/plant-{sid}.json"
        shutil.rmtree(repo + "/.pytest_cache", ignore_errors=True)
        runner = open("/opt/vp/run_tests.py").read()
        runner = re.sub(r"/repo\b", repo, runner)
        open(f"/tmp/plant-{sid}-run.py", "w").write(runner)
        test = re.sub(r"/repo\b", repo, open("/opt/vp/test.sh").read()) \
            .replace("/opt/vp/run_tests.py", f"/tmp/plant-{sid}-run.py")
        open(f"/tmp/plant-{sid}-test.sh", "w").write(test)
        run(["bash", f"/tmp/plant-{sid}-test.sh", out], cwd=repo)
        t = run([sys.executable, "/verif/tools/stable.py", out])
        os.unlink(f"/tmp/plant-{sid}-test.sh")
        os.unlink(f"/tmp/plant-{sid}-run.py")
        os.path.exists(out) and os.unlink(out)
        if "broken: none" not in t.stdout:
            return f"{sid}: tests: {t.stdout[-600:]}"
        if not do_check:
            return f"{sid}: planted"
        env = dict(os.environ, SX_REPO=repo, SX_EVID=f"/tmp/plant-{sid}-ev", VERIF_SEED="1",
                   VERIF_TIER="quick")
        c = run(["/verif/check", spec["PROPERTY"]], cwd="/verif", env=env)
        shutil.rmtree(f"/tmp/plant-{sid}-ev", ignore_errors=True)
        caught = c.returncode == 1 and f"VIOLATION property={spec['PROPERTY']}" in c.stdout
        return f"{sid}: planted; {'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode}" + \
            ("" if caught else "\n" + c.stdout[-800:])
    finally:
        shutil.rmtree(repo, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for a in sys.argv[1:] if a.endswith(".py") for b in runpy.run_path(a)["BUGS"]]
    ids = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for b in bugs:
        if ids and b["id"] not in ids:
            continue
        try:
            print(plant(b), flush=True)
        except Exception as exc:
            print(f"{b['id']}: {type(exc).__name__}: {exc}", flush=True)
