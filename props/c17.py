"""C17: schedules."""

from symx.sched import SchedWorld, Vanish, fork
from libff.find import Find
from .common import *

LABELS = ("console", "jsonl", "sorted", "json", "count", "limit", "exec", "exec sorted", "batch", "reverse", "three", "alone",
          "find", "find sorted", "abandoned", "thrown", "full pipe", "large", "split", "commands", "halt", "died", "vanished",
          "several starts", "shared", "incomplete")
BOUNDS = "trees of at most 7 entries (13 files for the shared directory), 1-3 workers, the default schedule and every deviation from it at up to 2 (quick, some modes 1) or 3 (thorough, some modes 2) points: another process is given the turn, a wait times out early, the data of a put is delayed"
BUDGET = {"quick": 300, "thorough": 3000}

MODES = {"console": [], "jsonl": ["--jsonl"], "sorted": ["-S"], "json": ["--json"], "count": ["--count"], "limit": ["-S", "-l1:3"],
         "exec": ["-x", "cmd"], "exec sorted": ["-S", "-x", "cmd"], "batch": ["-S", "-X", "cmd"], "reverse": ["-S", "--reverse"]}


def tree():
    return D({"w": D({"a": F(b""), "d": D({"b": F(b""), "e": D({"c": F(b"")})}), "g": D({})})})


PATHS = ["a", "d", "d/b", "d/e", "d/e/c", "g"]
DIRS = ["d", "d/e", "g"]


def cases(tier):
    k = 3 if tier == "thorough" else 2
    for mode in MODES:
        yield ("mode", mode, 2, k if mode in ("console", "sorted") else k - 1)
    yield ("mode", "console", 3, k - 1)
    yield ("mode", "sorted", 3, k - 1)
    yield ("mode", "console", 1, k)
    yield ("mode", "sorted", 1, k)
    for sort in (False, True):
        yield ("find", sort, k)
        for how in ("abandoned", "thrown"):
            for room in (1, 100):
                yield ("stop", sort, how, room, k)
    yield ("large", k)
    yield ("split", k)
    for sort in (False, True):
        for halt in ("never", "soon", "now"):
            yield ("commands", sort, halt, k - 1)
    for mode in ("console", "sorted", "exec"):
        for how in ("died", "vanished"):
            yield ("failing", mode, how, k)
    for sort in (False, True):
        for how in ("died", "vanished"):
            yield ("incomplete", sort, how, k)
    yield ("starts", k)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


_parsed = {}


def launch(w, *argv, jobs=2):
    """The programme and its end; its exit status.  What the command line means is worked out only
    once."""
    argv = ("-j", str(jobs)) + argv
    orig = getattr(ff_main, "parse_arguments", None)

    def parse():
        if argv not in _parsed:
            _parsed[argv] = orig()
        return fork(_parsed[argv], {})

    if orig is not None:
        ff_main.parse_arguments = parse
    try:
        status = programme(*argv)
    finally:
        if orig is not None:
            ff_main.parse_arguments = orig
    alive = sum(p.is_alive() for p in w.processes)
    w.end()
    return status, alive


def scanned(w, names=()):
    """How often each directory below the start directory was read."""
    return sorted(p for op, p in w.events if op == "scandir")


def once(env, w, dirs=DIRS):
    got = [os.path.relpath(p, "/w") if p.startswith("/w") else os.path.normpath(p) for p in scanned(w)]
    env.check(sorted(got) == sorted(["."] + dirs), "not every directory is read exactly once")


def run_mode(env, mode, jobs, switches):
    env.reach(mode)
    env.reach({1: "alone", 2: mode, 3: "three"}[jobs])
    with SchedWorld(tree(), env, switches) as w:
        status, alive = launch(w, *MODES[mode], jobs=jobs)
        out = w.stdout.text()
        env.observe([status, alive, out, w.started, w.sched.steps])
        env.check(status == 0, "wrong status")
        once(env, w)
        env.check(alive == 0, "a process stays behind")
    if mode in ("exec", "exec sorted"):
        env.check(sorted(w.started) == [["cmd", p] for p in PATHS], "not every command is started exactly once")
    elif mode == "batch":
        env.check(w.started == [["cmd"] + PATHS], "wrong command")
    elif mode == "count":
        env.check(sorted(out.split()) == ["_total=6", "file.size=0", "file.type[directory]=3", "file.type[file]=3"], "wrong count")
    elif mode == "json":
        env.check(sorted(r["path"][3:] for r in parse_json(out)) == PATHS, "wrong objects")
    elif mode == "jsonl":
        env.check(sorted(parse_json(r)["path"][3:] for r in out.split("\n")[:-1]) == PATHS, "wrong objects")
    elif mode == "console":
        env.check(sorted(out.split("\n")) == [""] + PATHS, "wrong records")
    else:
        want = {"sorted": PATHS, "limit": PATHS[1:3], "reverse": PATHS[::-1]}[mode]
        env.check(out.split("\n") == want + [""], "wrong records")


def run_find(env, sort, switches):
    env.reach("find sorted" if sort else "find")
    with SchedWorld(tree(), env, switches) as w:
        found = [r["path"] for r in Find([], output=["path"], sort=["path"] * sort, jobs=2, cache=None)]
        env.observe([found, w.sched.steps])
        env.check((found if sort else sorted(found)) == PATHS, "wrong results")
        once(env, w)
        env.check(not w.settle(), "a process stays behind")


class Stop(Exception):
    pass


def run_stop(env, sort, how, room, switches):
    """The results are not used up."""
    env.reach(how)
    if room == 1:
        env.reach("full pipe")
    with SchedWorld(tree(), env, switches, room=room) as w:
        it = iter(Find([], output=["path"], sort=["path"] * sort, jobs=2, cache=None))
        first = next(it)["path"]
        env.check(first in PATHS, "a result out of nowhere")
        if how == "thrown":
            try:
                it.throw(Stop())
            except Stop:
                pass
        else:
            it.close()
        left = w.settle()
        env.observe([first, len(left)])
        env.check(not left, "a process stays behind")


def run_large(env, switches):
    """Records that do not fit into a pipe at once."""
    env.reach("large")
    with SchedWorld(D({"w": D({"p": D({"x": F(b"")}), "q": D({"y": F(b"")})})}), env, switches) as w:
        Probe.values.clear()
        for p, c in (("p/x", "X"), ("q/y", "Y")):
            Probe.values[p] = {"str": c * 5000}
        status, alive = launch(w, "-Dp", "-Dq", "-o", "path,probe.str")
        out = w.stdout.text()
        env.observe([status, alive, len(out)])
    env.check(sorted(out.split("\n")) == ["", "p/x " + "X" * 5000, "q/y " + "Y" * 5000], "records are mixed up")


def run_split(env, switches):
    """A slow plugin and a directory large enough to share it with idle processes."""
    env.reach("split")
    names = [f"f{i:02}" for i in range(13)]
    root = D({"w": D({n: F(b"") for n in names})})
    speed = Probe.speed
    Probe.speed = Speed.SLOW
    try:
        with SchedWorld(root, env, switches) as w:
            Probe.values.clear()
            for i, n in enumerate(names):
                Probe.values[n] = {"num": i}
            found = [r["path"] for r in Find(["probe.num>=0"], output=["path"], jobs=2, cache=None)]
            env.observe([found, w.sched.steps])
            if "Entries" in w.sent:
                env.reach("shared")
            env.check(sorted(found) == names, "wrong results")
            env.check(not w.settle(), "a process stays behind")
    finally:
        Probe.speed = speed


def run_commands(env, sort, halt, switches):
    """Commands that may fail."""
    env.reach("commands")
    codes = []

    def outcome(n, args):
        codes.append(env.int(f"exit{n}", 0, 1))
        return codes[-1]

    root = D({"w": D({"a": F(b""), "d": D({"b": F(b"")})})})
    paths = ["a", "d", "d/b"]
    with SchedWorld(root, env, switches, outcome) as w:
        status, alive = launch(w, *["-S"] * sort, "--halt", halt, "-x", "cmd")
        env.observe([status, alive, w.started, w.stderr.text()])
        err = w.stderr.text()
        env.check(alive == 0, "a process stays behind")
    failed = [bool(c != 0) for c in codes]
    env.check(status == (3 if any(failed) else 0), "wrong status")
    started = sorted(w.started)
    if any(failed) and halt != "never":
        env.reach("halt")
        env.check(all(started.count(["cmd", p]) <= 1 for p in paths), "a command is started twice")
        env.check(len(started) <= 3, "a command out of nowhere")
    else:
        env.check(started == [["cmd", p] for p in paths], "not every command is started exactly once")
        if any(failed):
            text = " ".join(err.split())
            env.check(f"(success: {failed.count(False)}, failure: {failed.count(True)})" in text, "wrong numbers of successes and failures")


def run_failing(env, mode, how, switches):
    """A worker that runs into an error nobody expects, or is gone from one moment to the next."""
    env.reach(how)

    def die():
        raise Vanish(-9 if where == "d" else 1) if how == "vanished" else ZeroDivisionError()

    where = env.pick("where", ("d", "d/e"))
    bad = D({"x": F(b"")}, errors={"scandir": die})
    top = {"a": F(b""), "g": D({"h": F(b"")})}
    top["d"] = bad if where == "d" else D({"e": bad})
    with SchedWorld(D({"w": D(top)}), env, switches) as w:
        status, alive = launch(w, *MODES[mode])
        out = w.stdout.text()
        env.observe([status, out, w.started])
    env.check(status == 4, "a dead worker is not reported")
    got = sorted(out.split("\n")[:-1] if mode != "exec" else [c[1] for c in w.started])
    env.check(all(got.count(p) <= 1 and p in ("a", "d", "g", "g/h", "d/e") for p in got), "wrong records")


def run_incomplete(env, sort, how, switches):
    """The same if the results are taken by a caller."""
    env.reach("incomplete")

    def die():
        raise Vanish() if how == "vanished" else ZeroDivisionError()

    bad = D({"x": F(b"")}, errors={"scandir": die})
    with SchedWorld(D({"w": D({"a": F(b""), "d": bad, "g": D({"h": F(b"")})})}), env, switches) as w:
        got, told = [], False
        try:
            for r in Find([], output=["path"], sort=["path"] * sort, jobs=2, cache=None):
                got.append(r["path"])
        except X.ProcessError:
            told = True
        left = w.settle()
        env.observe([told, got])
    env.check(told, "the caller is not told that results are missing")
    env.check(not left, "a process stays behind")
    env.check(all(got.count(p) <= 1 and p in ("a", "d", "g", "g/h") for p in got), "wrong results")


def run_starts(env, switches):
    """More than one start directory."""
    env.reach("several starts")
    root = D({"w": D({"p": D({"x": F(b"")}), "q": D({"y": D({"z": F(b"")})})})})
    with SchedWorld(root, env, switches) as w:
        status, alive = launch(w, "-Dp", "-Dq")
        out = w.stdout.text()
        env.observe([status, out])
        env.check(status == 0 and alive == 0, "wrong end")
        env.check(sorted(out.split("\n")) == ["", "p/x", "q/y", "q/y/z"], "wrong records")
