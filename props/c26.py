"""C26: the exit status."""

from .common import *

LABELS = ("success", "no result", "fail", "command failed", "cannot start", "worker died", "usage", "halted", "never",
          "soon", "now", "console", "sorted", "count", "json", "jsonl", "exec", "exec sorted", "batch", "limit", "signal", "both")
BOUNDS = ("every processing mode (text, sorted, limited, count, both JSON forms, exec, exec after sorting, exec-batch) with "
          "0 to 4 (thorough 6) results, with and without --fail, every exit status of every command, commands killed by a "
          "signal or not startable, the three --halt modes, one worker that dies in any of the directories; one worker process")
BUDGET = {"quick": 150, "thorough": 2400}

MODES = {"console": [], "sorted": ["-S"], "count": ["--count"], "json": ["--json"], "jsonl": ["--jsonl"], "exec": ["-x", "cmd"],
         "exec sorted": ["-S", "-x", "cmd"], "batch": ["-S", "-X", "cmd"], "limit": ["-S", "-l0:2"]}


def cases(tier):
    top = 6 if tier == "thorough" else 4
    for mode in MODES:
        for n in range(0, top + 1):
            yield ("run", mode, n)
        yield ("dead", mode)
        yield ("usage", mode)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def run_run(env, mode, n):
    env.reach(mode)
    fail = env.flag("--fail")
    argv = ["--fail"] * fail
    halt = "never"
    if mode.startswith("exec"):
        halt = env.pick("halt", ("never", "soon", "now"))
        if halt != "never" or env.flag("explicit"):
            argv += ["--halt", halt]
    codes = []

    def outcome(i, args):
        kind = env.pick(f"kind{i}", ("status", "signal", "ENOENT", "EACCES") if i < 2 else ("status", "ENOENT"))
        if kind == "status":
            codes.append(env.int(f"exit{i}", 0, 255))
            return codes[-1]
        codes.append(1)
        if kind == "signal":
            env.reach("signal")
            return -1009
        env.reach("cannot start")
        return -getattr(errno, kind)

    world = ExecWorld(D({"w": D({f"f{i}": F(b"") for i in range(n)})}), outcome)
    if mode in ("exec", "exec sorted", "batch") or not env.flag("query"):
        query = []
    else:
        query = ["type=file"]
    with active(world):
        status = programme(*query, *argv, *MODES[mode])
    env.observe([status, len(world.started)])
    if n == 0:
        env.reach("no result")
        if fail:
            env.reach("fail")
        env.check(status == (1 if fail else 0), "wrong status without results")
        env.check(not codes, "a command is started without results")
        return
    failed = [bool(c != 0) for c in codes]
    if any(failed):
        env.reach("command failed")
        env.check(status == 3, "a failed command is not reported")
    else:
        env.reach("success")
        env.check(status == 0, "success is not reported")
    if mode.startswith("exec"):
        env.reach(halt)
        if halt == "never" or True not in failed:
            env.check(len(codes) == n, "not every result's command is started")
        else:
            # everything before the first failure and nothing after it
            env.check(failed.index(True) == len(codes) - 1, "a command is started after the first failure")
            if len(codes) < n:
                env.reach("halted")


class Died(Exception):
    pass


def run_dead(env, mode):
    """A worker runs into an error nobody expects."""
    env.reach("worker died")

    def die():
        raise Died

    bad = D({"x": F(b"")}, errors={"scandir": die})
    tree = {"a": F(b"")} if env.flag("results") else {}
    where = env.pick("where", ("top", "below", "entry"))
    if where == "entry":
        # lstat of an entry fails in an unexpected way
        tree["e"] = F(b"", errors={"stat": die, "lstat": die})
        tree["bad"] = bad
    else:
        tree["d"] = D({"bad": bad}) if where == "below" else bad
    code = env.pick("exit", (0, 5))
    world = ExecWorld(D({"w": D(tree)}), lambda i, args: code)
    with active(world):
        status = programme("type=f", *["--fail"] * env.flag("--fail"), *MODES[mode])
    env.observe(status)
    if code and world.started:
        env.reach("both")
        env.check(status in (3, 4), "neither failure is reported")
    else:
        env.check(status == 4, "a dead worker is not reported")


def run_usage(env, mode):
    env.reach("usage")
    bad = env.pick("bad", (["("], ["--nosuchoption"], ["-l", "x"], ["-D", "/nonexistent"], ["name=a", "OR"],
                           ["-e", ")"], ["--limit"] if mode not in ("exec", "exec sorted", "batch") else ["-Q"],
                           ["--count", "-x", "cmd"], ["-Dd", "-Dd/e"]))
    fail = env.flag("--fail")
    world = ExecWorld(D({"w": D({"f": F(b""), "d": D({"e": D({})})})}))
    with active(world):
        argv = list(MODES[mode])
        status = programme(*["--fail"] * fail, *(argv + bad if bad == ["--limit"] else bad + argv))
        out = world.stdout.text()
    env.observe(status)
    env.check(status == 2, "a usage error is not reported")
    env.check(not world.started, "a command is started after a usage error")
    env.check(out in ("", "[") if mode == "json" else out == "", "results after a usage error")
