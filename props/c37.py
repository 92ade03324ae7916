"""C37: the reader of the output goes away."""

from symx.sched import SchedWorld
from .common import *
from .c17 import launch

LABELS = ("console", "color", "jsonl", "sorted", "json", "count", "json count", "none", "used up", "help", "version")
BOUNDS = ("the six output modes, --help and --version; a tree of 7 entries, 2 workers; the pipe is closed before the first, second, ... piece of output or "
          "never; the default schedule and every deviation from it at 1 (thorough 2) points")
BUDGET = {"quick": 300, "thorough": 3000}

MODES = {"console": [], "color": ["--color=always"], "jsonl": ["--jsonl"], "sorted": ["-S"], "json": ["--json"],
         "help": ["--help"], "version": ["--version"], "count": ["--count"], "json count": ["--count", "--json"], "none": ["name=x"], "large": ["--jsonl", "-o", "probe.str"]}
NAMES = ["a", "b", "c", "d", "e"]


def cases(tier):
    for mode in MODES:
        for wide in (False,) if mode in ("help", "version") else (False, True):
            yield (mode, wide, 2 if tier == "thorough" else 1)


def run(env, case):
    mode, wide, switches = case
    env.reach(mode if mode != "large" else "jsonl")
    if wide:
        root = D({"w": D({n: D({"x": F(b"")}) for n in NAMES[:3]})})
    else:
        root = D({"w": D({"a": F(b""), "d": D({"b": F(b""), "e": D({"c": F(b"")})}), "g": D({})})})
    with SchedWorld(root, env, switches) as w:
        Probe.values.clear()
        for p in ("a", "b", "c", "d"):
            Probe.values[p] = {"str": p * 5000}
        at = env.int("at", 0, 3)
        w.close_output_at = next(n for n in range(4) if at == n)
        w.environ["LS_COLORS"] = "di=1"
        status, alive = launch(w, *MODES[mode])
        out, err = w.stdout.text(), w.stderr.text()
        if w.refused_output:
            env.reach("used up")
        env.observe([status, alive, len(out), err])
        env.check(alive == 0, "a process stays behind")
        env.check(err == "", "an error is reported")
        env.check(status == 0, "wrong status")
    if mode in ("help", "version"):
        env.check(not [p for op, p in w.events if op == "scandir" and p.startswith((".", "/w"))], "the tree is searched")
        if not w.refused_output:
            env.check("usage: ff" in out and "--jsonl" in out if mode == "help" else "ff " in out, "the text is missing")
    if mode in ("console", "sorted") and len(out) < 4096:
        recs = out.split("\n")
        paths = [n for d in NAMES[:3] for n in (d, d + "/x")] if wide else ["a", "d", "d/b", "d/e", "d/e/c", "g"]
        env.check(recs.pop() == "" and len(set(recs)) == len(recs) and set(recs) <= set(paths), "wrong records")
        if not w.refused_output:
            env.check(sorted(recs) == paths, "wrong records")
