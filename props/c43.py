"""C43: debug mode.  The code is executed with __debug__ set, as it is by python -m ff and by programmes that use the Python
interface."""

import importlib

from symx.sched import SchedWorld
from .common import *

OPTIMIZE = 0

# Cases of other properties that are repeated in debug mode: of each, every n-th.
AGAIN = {"c01": 200, "c02": 12, "c03": 30, "c05": 30, "c08": 30, "c09": 60, "c10": 30, "c14": 12, "c15": 12, "c33": 12, "c35": 12, "c42": 20, "c16": 80, "c17": 15, "c18": 12, "c20": 12, "c22": 40, "c23": 12, "c24": 40, "c25": 4, "c26": 12, "c27": 30, "c28": 40,
         "c31": 10, "c32": 12, "c34": 8, "c36": 40, "c37": 5, "c38": 12, "c40": 12}

CATEGORIES = ("info", "cache", "walk", "mp", "all", "none", "other")
MODES = {"console": [], "sorted": ["-S"], "jsonl": ["--jsonl"], "json": ["--json"], "count": ["--count"], "exec": ["-x", "cmd"],
         "batch": ["-X", "cmd"], "limit": ["-l1:2"], "ignore": ["-I"], "query": ["name=a", "or", "type=d", "-e", "name=g"],
         "no result": ["name=zz"], "failing": ["--fail", "name=zz"], "absolute": ["-a"]}

LABELS = tuple(AGAIN) + ("debug", "silent", "refused", "accepted", "profile", "undecodable")
BUDGET = {"quick": 200, "thorough": 3000}
BOUNDS = ("a selection of about 170 cases of 30 other properties, each with its own bounds, executed with __debug__ set; 13 modes of the "
          "programme with any one or two debug categories over a tree of 6 entries, one of them of an ASCII, non-ASCII or undecodable "
          "name; --profile with the same; plugin values of 15 kinds for 12 attributes of every type, of any of three entries, in five uses")
ASSUME = ("messages carry their category as the prefix DEBUG:category:; the profiler itself is a stand-in",)


class Inner:
    """The environment as the harness of another property sees it."""

    def __init__(self, env):
        self.env = env

    def __getattr__(self, name):
        return getattr(self.env, name)

    def reach(self, label):
        pass


def module(name):
    return importlib.import_module("props." + name)


MODULES = {name: module(name) for name in AGAIN}


def warm():
    for mod in [MODULES["c38"], *MODULES.values()]:     # c38 wants to see the plugins being loaded
        if hasattr(mod, "warm"):
            mod.warm()


def cases(tier):
    for name, step in AGAIN.items():
        for case in list(MODULES[name].cases("quick"))[:: max(1, step // 4) if tier == "thorough" else step]:
            yield ("again", name, case)


    for mode in MODES:
        yield ("debug", mode)
        yield ("profile", mode)
    for kind in Probe.attributes:
        for use in ("output", "sort", "test", "json", "beside"):
            yield ("type", kind[0], use)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def run_again(env, name, case):
    env.reach(name)
    MODULES[name].run(Inner(env), case)


def tree(name="a"):
    return D({"w": D({name: F(b"x"), "d": D({"b": F(b""), ".gitignore": F(b"c\n"), "c": F(b"")}), "g": D({})})})


def search(name, outcome, *argv):
    """What the programme puts out, reports and starts, and how it ends."""
    w = ExecWorld(tree(name), outcome)
    with active(w):
        w.environ["LS_COLORS"] = ""
        status = programme(*argv)
        return status, w.stdout.text(), w.stderr.text(), w.started


def run_debug(env, mode):
    """Debug messages go to standard error, those that were asked for, and change nothing else."""
    chosen = [env.pick("first", CATEGORIES)]
    if env.flag("two"):
        chosen.append(env.pick("second", CATEGORIES))
    name = env.pick("name", ("a", "\udc80a", "\xe9\ud7ff"))
    result = 1 if mode in ("exec", "batch") and env.flag("fails") else 0
    env.reach("debug" if name == "a" else "undecodable")
    plain = search(name, lambda n, args: result, *MODES[mode])
    debug = search(name, lambda n, args: result, f"--debug={','.join(chosen)}", *MODES[mode])
    env.observe([plain[0], plain[1], debug[2] == ""])
    env.check(debug[0] == plain[0], "the status changes")
    env.check(debug[1] == plain[1], "the output changes")
    env.check(debug[3] == plain[3], "other commands are started")
    lines = debug[2].split("\n")
    rest = [l for l in lines if not l.startswith("DEBUG:")]
    env.check("\n".join(rest) == plain[2], "other messages change")
    kinds = {l.split(":")[1] for l in lines if l.startswith("DEBUG:")}
    if "all" not in chosen:
        env.check(kinds <= set(chosen), "messages that were not asked for")
        if not {"info", "mp"} & set(chosen):
            env.reach("silent")
    for kind in ("info", "mp"):
        if kind in chosen or "all" in chosen:
            env.check(kind in kinds, "messages are missing")


class Profile(core.Fake):
    """Stands in for cProfile."""

    def enable(self, *args, **kw):
        pass

    disable = create_stats = enable


class Stats(core.Fake):
    """Stands in for pstats."""

    def __init__(self, *args, stream=None, **kw):
        self.stream = stream

    def sort_stats(self, *keys):
        return self

    strip_dirs = sort_stats

    def print_stats(self, *amount):
        print("statistics", file=self.stream)
        return self


def run_profile(env, mode):
    import cProfile
    import pstats
    env.reach("profile")
    name = env.pick("name", ("a", "\udc80a"))
    plain = search(name, lambda n, args: 0, *MODES[mode])
    saved = cProfile.Profile, pstats.Stats
    cProfile.Profile, pstats.Stats = Profile, Stats
    try:
        status, out, err, started = search(name, lambda n, args: 0, "--profile", *MODES[mode])
    finally:
        cProfile.Profile, pstats.Stats = saved
    env.observe([status, out])
    env.check("statistics" not in out, "the statistics are mixed with the output")
    if mode in ("exec", "batch"):
        env.check(status == 2 and started == [] and "--profile" in err, "not refused")
        return
    env.check(status == plain[0], "the status changes")
    env.check(err != "" and "Traceback" not in err, "no statistics")


VALUES = {"none": None, "text": "x", "empty text": "", "bytes": b"x", "number": 7, "zero": 0, "fraction": 1.5, "true": True, "list": ["x", "y"],
          "empty list": [], "list of numbers": ["x", 7], "set": {"x"}, "set of bytes": {b"x"}, "dict": {"x": 1}, "class": str}
RIGHT = {"num": ("number", "zero"), "flag": ("true",), "str": ("text", "empty text"), "list": ("list", "empty list", "set")}
# values that may be one or the other
UNCLEAR = {"num": ("true",)}
LIKE = {"num2": "num", "len": "num", "dur": "num", "when": "num", "bits": "num", "text": "str", "loc": "str", "kind": "str"}


def run_type(env, name, use):
    """Values of the wrong type are reported."""
    like = LIKE.get(name, name)
    kind = env.pick("value", tuple(VALUES))
    env.assume(kind not in UNCLEAR.get(like, ()))
    where = env.pick("entry", ("a", "d", "d/b"))
    values = {name: VALUES[kind]}
    other = "str" if name != "str" else "num"
    fine = {other: "x" if other == "str" else 7}
    beside = env.pick("with another", ("no", "before", "after"))
    if beside != "no":
        values = {**fine, **values} if beside == "before" else {**values, **fine}
    given = {p: values for p in (where, "/w/" + where)}
    argv = {"output": ["-o", f"probe.{name},path"], "sort": ["--sort", f"probe.{name}"], "json": ["--json", "-o", f"probe.{name}"],
            "beside": ["-o", "probe.extra,path"]}
    operand = {"num": "7", "flag": "yes", "str": "x", "list": "x", "bits": "644", "kind": "f"}
    test = [f"probe.{name}={operand.get(name, operand[like])}"]
    if use == "beside":
        argv = ["-o", f"probe.{'str' if name != 'str' else 'num'},path"]
    elif use == "test":
        argv = test
    else:
        argv = argv[use]
    w = World(tree())
    with active(w):
        Probe.values.clear()
        Probe.values.update(given)
        status = programme(*argv)
        out, err = w.stdout.text(), w.stderr.text()
        Probe.values.clear()
    env.observe([status, out])
    if kind in RIGHT[like]:
        env.reach("accepted")
        env.check(status == 0 and err == "", "a value of the right type is reported")
    else:
        env.reach("refused")
        env.check(status in (4, 10), "a value of the wrong type is accepted")
        env.check("probe" in err and name in err, "the report does not say where the value comes from")
