"""C25: batch execution."""

from .common import *

LABELS = ("split", "single refused", "all refused", "one run", "none", "failed", "cannot start", "two arguments",
          "several runs", "skipped")
BOUNDS = ("0 to 6 (thorough 9) results; the operating system refuses a command line as too long when its number of "
          "arguments, or the sum of the sizes (1 or 3) of its arguments, is larger than any limit, or for any combination "
          "of starts independently; the commands succeed, fail, are killed by a signal or cannot be started; sorted, reversed, limited")
BUDGET = {"quick": 150, "thorough": 2400}


def cases(tier):
    deep = tier == "thorough"
    top = 9 if deep else 6
    for n in range(0, top + 1):
        yield ("count", n)
    for n in range(1, 6 if deep else 5):
        yield ("size", n)
        yield ("free", n)
        yield ("exit", n)
    yield ("skip",)
    yield ("error",)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def search(env, names, outcome, *argv, template=("cmd", "{}")):
    world = ExecWorld(D({"w": D({n: F(b"") for n in names})}), outcome)
    with active(world):
        status = programme("-S", *argv, "-X", *template)
    env.observe([status, world.started])
    return status, world.started, world.refused


def verify(env, status, started, refused, names, single, failed=False):
    """single(name): can this result be passed at all?"""
    passed = []
    for args in started:
        env.check(args[0] == "cmd", "wrong command")
        passed += args[1:]
    want = [n for n in names if single(n)]
    if len(started) > 1:
        env.reach("several runs")
    if len(started) == 1:
        env.reach("one run")
    if not names:
        env.reach("none")
        env.check(not started and not refused, "a command is started without results")
        env.check(status == 0, "no result is a failure")
        return
    if len(want) == len(names):
        env.check(passed == names, "the results passed are not the result list")
        env.check(status == (3 if failed else 0), "wrong exit status")
    else:
        env.reach("single refused" if want else "all refused")
        env.check(status == 3, "a result that was not passed is not reported")
        # nothing twice, nothing out of order
        it = iter(names)
        env.check(all(any(x == n for n in it) for x in passed), "results are passed twice or out of order")
    if refused:
        env.reach("split")


def run_count(env, n):
    """A limit on the number of arguments."""
    limit = env.int("limit", 0, n + 1)
    two = env.flag("two")
    rev = env.flag("reverse")
    names = [f"f{i}" for i in range(n)]
    if two:
        env.reach("two arguments")
        status, started, refused = search(env, names, lambda i, args: -errno.E2BIG if len(args) - 2 > limit * 2 else 0,
                                          *["-R"] * rev, template=("cmd", "{/}", "-", "{}"))
        if rev:
            names.reverse()
        back = []
        for args in started:
            k = (len(args) - 2) // 2
            env.check(args[1:k + 1] == args[k + 2:] and args[k + 1] == "-", "the arguments do not match")
            back.append(["cmd"] + args[1:k + 1])
        started = back
    else:
        status, started, refused = search(env, names, lambda i, args: -errno.E2BIG if len(args) - 1 > limit else 0,
                                          *["-R"] * rev)
        if rev:
            names.reverse()
    verify(env, status, started, refused, names, lambda x: bool(limit >= 1))


def run_size(env, n):
    """A limit on the size; some results are larger than others."""
    big = [env.flag(f"big{i}") for i in range(n)]
    names = [f"f{i}" + "xx" * b for i, b in enumerate(big)]
    limit = env.int("limit", 0, 3 * n + 1)

    def size(args):
        return sum(3 if len(a) > 2 else 1 for a in args[1:])

    status, started, refused = search(env, names, lambda i, args: -errno.E2BIG if size(args) > limit else 0)
    verify(env, status, started, refused, names, lambda x: bool(limit >= (3 if len(x) > 2 else 1)))


def run_free(env, n):
    """Any start of more than one result may be refused."""
    names = [f"f{i}" for i in range(n)]
    status, started, refused = search(env, names, lambda i, args: -errno.E2BIG if len(args) > 2 and env.flag(f"refused{i}")
                                      else 0)
    verify(env, status, started, refused, names, lambda x: True)


def run_exit(env, n):
    """The runs fail or succeed."""
    env.reach("failed")
    limit = env.pick("limit", range(1, n + 1))
    names = [f"f{i}" for i in range(n)]
    failed = []
    killed, signal = env.pick("killed", ((-1, 0), (0, 9), (1, 13)))

    def outcome(i, args):
        if len(args) - 1 > limit:
            return -errno.E2BIG
        # killed by a signal?
        failed.append(env.int(f"exit{i}", 0, 255) if killed != i else -1000 - signal)
        return failed[-1]

    status, started, refused = search(env, names, outcome)
    verify(env, status, started, refused, names, lambda x: True, any(bool(f != 0) for f in failed))


def run_skip(env):
    """Results without a value have no argument."""
    env.reach("skipped")
    limit = env.int("limit", 1, 4)
    names = [f"f{i}" for i in range(4)]
    Probe.values = {}
    for n in names:
        if not env.flag("missing " + n):
            Probe.values[n] = {"str": n}
    status, started, refused = search(env, names, lambda i, args: -errno.E2BIG if len(args) - 1 > limit else 0,
                                      template=("cmd", "{probe.str}"))
    passed = [a for args in started for a in args[1:]]
    env.check(status == 0, "wrong exit status")
    env.check(passed == [n for n in names if n in Probe.values], "the results passed are not the result list")


def run_error(env):
    """The command cannot be started at all."""
    env.reach("cannot start")
    err = env.pick("error", (errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.ENOEXEC, errno.E2BIG))
    n = env.pick("n", (1, 2, 3))
    status, started, refused = search(env, [f"f{i}" for i in range(n)], lambda i, args: -err)
    env.check(status == 3, "a command that cannot be started is not reported")
    env.check(not started, "?")
