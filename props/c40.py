"""C40: contradictory options are refused, useless ones are announced, diagnostics go to stderr."""

from .common import *

LABELS = ("conflict", "useless", "announced", "silent", "unsorted", "hidden", "fault", "warned", "quiet fault", "ignore file",
          "cannot start", "refused", "from the environment", "nothing wrong")
BOUNDS = ("every combination of --count (bare, with a list, empty), -x, -X and -l in every order and every distribution "
          "over FF_OPTIONS and the command line; every mode of output combined with every option it makes useless, before "
          "and after it; -H with tests on every hidden attribute; 0 to 3 results; trees with up to 3 files or directories "
          "of which any fails with one of five errors, with names of up to 2 (thorough 3) arbitrary characters; up to two "
          "unreadable ignore files looked at any number of times; one worker process")
ASSUME = ("a message is recognised by what it must name (the option, the path, the reason), however it is worded and wrapped",)
BUDGET = {"quick": 150, "thorough": 2400}

MODES = {"exec": ["-x", "cmd"], "batch": ["-X", "cmd"], "count": ["--count"], "count list": ["--count=type,size"],
         "json count": ["--json", "--count"], "exec sorted": ["-S", "-x", "cmd"]}
SORT = {"-S": ["-S"], "sort list": ["--sort=size,path"]}
OUT = {"-o": ["-o", "size,name"], "-v": ["-v"], "--output": ["--output=depth"]}


def cases(tier):
    for first in ("count", "exec", "batch", "limit", "none"):
        yield ("conflict", first)
    for mode in MODES:
        for o in OUT:
            yield ("useless", mode, o)
        if "count" in mode:
            for o in SORT:
                yield ("useless", mode, o)
        yield ("color", mode)
    for how in ("console", "sorted", "exec", "batch", "json"):
        yield ("limit", how)
    for attr in ("hide", "hidden", "file.hide", "file.hidden", "size"):
        yield ("hidden", attr)
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        yield ("fault", "stat", n)
        yield ("fault", "scandir", n)
    for n in (0, 1, 2):
        yield ("ignore", n)
    for mode in ("exec", "batch", "exec sorted"):
        yield ("start", mode)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def squeeze(text):
    """A message without regard to how it is wrapped."""
    out = ""
    for c in text:
        if not among(c, " \n\t\r\x0b\x0c"):
            out += c
    return out


def search(tree, *argv, options=None, outcome=None):
    world = ExecWorld(D({"w": D(tree)}), outcome)
    if options is not None:
        world.environ["FF_OPTIONS"] = options
    with active(world):
        status = programme(*argv)
        return status, world.stdout.text(), world.stderr.text(), world


def tree(n):
    return {f"f{i}": F(b"x" * i) for i in range(n)}


# ------------------------------------------------------------------ conflicts --
def run_conflict(env, first):
    """What cannot be combined is refused before anything happens."""
    env.reach("conflict")
    parts = {"count": [env.pick("count", ("--count", "--count=type", "--count=", "--count=size:h"))], "limit": [env.pick(
        "limit", ("-l0:1", "-1", "-l1,0", "--limit=:"))], "exec": ["-x", "cmd"], "batch": ["-X", "cmd"], "none": []}
    chosen = [first] if first != "none" else []
    for p in ("count", "limit", "exec", "batch"):
        # -x and -X take everything after them
        if p != first and not (p in ("exec", "batch") and {"exec", "batch"} & set(chosen)) and env.flag(p):
            chosen.append(p)
    words = [parts[c] for c in sorted(chosen, key=lambda c: c in ("exec", "batch"))]
    if len(words) > 1 and not {"exec", "batch"} & set(chosen) and env.flag("reverse"):
        words.reverse()
    extra = env.pick("extra", ([], ["-S"], ["--json"]))
    options = None
    if words and words[0][0] not in ("-x", "-X") and env.flag("environment"):
        env.reach("from the environment")
        options = " ".join(words.pop(0))
    nodes = tree(2)
    status, out, err, world = search(nodes, *extra, *sum(words, []), options=options)
    env.observe([status, out])
    if "count" in chosen and len(chosen) > 1:
        env.reach("refused")
        env.check(status == 2, "contradictory options are not refused")
        env.check(out == "", "contradictory options: there is output")
        env.check("count" in err, "the message does not name the option")
        env.check(not world.started and not world.refused, "contradictory options: a command is started")
        env.check(not [p for op, p in world.events if op == "scandir"], "contradictory options: the tree is searched")
    else:
        env.check(status == 0, "options that go together are refused")
        if {"exec", "batch"} & set(chosen):
            env.check(out == "" and len(world.started) > 0, "the command is not started")
        else:
            env.check(out != "", "no output")


# ------------------------------------------------------------ useless options --
def run_useless(env, mode, name):
    """The results are the ones without the useless option, and the option is named."""
    env.reach("useless")
    option = (OUT.get(name) or SORT.get(name))
    n = env.pick("n", (0, 1, 3))
    fail = env.flag("--fail")
    base = ["--fail"] * fail
    code = env.int("exit", 0, 255) if "count" not in mode else 0
    status, out, err, world = search(tree(n), *base, *MODES[mode], outcome=lambda i, a: code)
    if mode in ("exec", "batch", "exec sorted") or env.flag("before"):
        argv = base + option + MODES[mode]
    else:
        argv = base + MODES[mode] + option
    options = None
    if env.flag("environment"):
        env.reach("from the environment")
        argv = [a for a in argv if a not in option] if len(option) == 1 else [a for a in argv if a not in option]
        options = " ".join(option)
    status2, out2, err2, world2 = search(tree(n), *argv, options=options, outcome=lambda i, a: code)
    env.observe([status, out, world.started])
    env.check(status2 == status, "a useless option changes the exit status")
    env.check(same(out2, out), "a useless option changes the output")
    env.check(world2.started == world.started, "a useless option changes the commands")
    word = "output" if name in OUT else "sort"
    env.check("--" + word in squeeze(err2) and "WARNING" in err2, "a useless option is not announced")
    env.check(squeeze(err2).count("WARNING:") == 1 + squeeze(err).count("WARNING:"), "a useless option is announced more than once")
    env.reach("announced")
    env.check("WARNING" not in err, "a warning without a reason")


def same(a, b):
    return len(a) == len(b) and a == b


def run_color(env, mode):
    """Options without a meaning in this mode change nothing at all."""
    env.reach("silent")
    n = env.pick("n", (0, 2))
    option = env.pick("option", (["--color=always"], ["--sep=X"], ["-R"] if "count" in mode else ["--si"], ["--all"], ["-0"]))
    if option == ["-0"] and "count" in mode:
        return
    status, out, err, world = search(tree(n), *MODES[mode])
    status2, out2, err2, world2 = search(tree(n), *option, *MODES[mode])
    env.observe([status, out, world.started])
    env.check(status2 == status and out2 == out and world2.started == world.started, "an option without a meaning changes something")


def run_limit(env, how):
    """-l works without -S but is announced as unwise; with -S there is nothing to announce."""
    env.reach("unsorted")
    n = env.pick("n", (0, 1, 3))
    mode = {"console": [], "sorted": ["-S"], "exec": ["-x", "cmd"], "batch": ["-X", "cmd"], "json": ["--json"]}[how]
    limit = env.pick("limit", (["-l0:2"], ["-1"], ["--limit", "-2:"]))
    status, out, err, world = search(tree(n), *limit, *mode)
    env.observe([status, out, world.started])
    env.check(status == 0, "wrong status")
    want = min(n, 1 if limit == ["-1"] else 2)
    if how in ("console", "sorted"):
        env.check(out.count("\n") == want, "wrong number of results")
    elif how == "exec":
        env.check(len(world.started) == want, "wrong number of commands")
    elif how == "batch":
        env.check(sum(len(a) - 1 for a in world.started) == want, "wrong number of arguments")
    else:
        env.check(len(parse_json(out)) == want, "wrong number of results")
    if how == "sorted":
        env.check(err == "", "a message without a reason")
    else:
        env.check("--limit" in err and "--sort" in err and err.count("WARNING") == 1, "a limit without order is not announced")


def run_hidden(env, attr):
    """Tests on hidden entries are pointless with -H, which is said once."""
    env.reach("hidden")
    names = [env.pick(f"n{i}", (".a", "b", "c")[i:] + (".d",)) for i in range(2)]
    nodes = {n: F(b"x") for n in names}
    value = env.pick("value", ("=yes", "=no")) if attr != "size" else "=1"
    count = env.int("count", 1, 2)
    tests = [attr + value]
    if count == 2:
        second = attr if attr == "size" else env.pick("second", ("hide", "hidden", "file.hide", "file.hidden"))
        tests += ["OR", second + value]
        # exclude tests count as well
        if env.flag("exclude"):
            tests = ["-e", tests[0], tests[2]] if attr == "size" else tests + ["-e", second + ("=no" if value == "=yes" else "=yes")]
    hide = env.flag("-H")
    status, out, err, world = search(nodes, *["-H"] * hide, *tests)
    env.observe([status, out])
    env.check(status == 0, "refused")
    want = [n for n in nodes if not (hide and n[0] == ".") and tests[0] != "-e" and
            (attr == "size" or (n[0] == ".") == (value == "=yes"))]
    env.check(sorted(out.split()) == sorted(want), "wrong results")
    if hide and attr != "size":
        env.reach("announced")
        env.check("hidden" in err and "-H" in err and err.count("WARNING") == 1, "a pointless test is not announced once")
    else:
        env.check(err == "", "a message without a reason")


# --------------------------------------------------------------------- faults --
def run_fault(env, op, n):
    """What fails is reported on standard error unless it is gone or forbidden; the results are the same
    as ever and free of messages."""
    env.reach("fault")
    name = env.text("name", n, "aW \n-"[:5])
    for c in name:
        if c == "/" or c == "\0":
            return
    no_ = env.pick("errno", ("ENOENT", "EACCES", "EIO", "ELOOP", "EPERM"))
    code = getattr(errno, no_)
    bad = F(b"", errors={"stat": code}) if op == "stat" else D({}, errors={"scandir": code})
    nodes = {"zz": F(b"")}
    nodes2 = [("zz", nodes["zz"]), (name, bad)]
    if env.flag("first"):
        nodes2.reverse()
    root = D({"w": D({})})
    root.children[0][1].children[:] = nodes2
    mode = env.pick("mode", ([], ["--jsonl"], ["-S"], ["--count=type"]))
    world = ExecWorld(root)
    with active(world):
        status = programme("name=zz", *mode)
        out, err = world.stdout.text(), world.stderr.text()
    env.observe([status, out])
    env.check(status == 0, "a fault ends the search")
    env.check(out == {"": "zz\n", "--jsonl": '{"path": "/w/zz"}\n', "-S": "zz\n"}.get("".join(mode), out), "the output is not just the results")
    if mode == ["--count=type"]:
        env.check("WARN" not in out and "Error" not in out, "a message among the results")
    if no_ in ("ENOENT", "EACCES", "EPERM"):
        # vanished or forbidden: no reason to worry
        env.reach("quiet fault")
        env.check(err == "", "entries that vanished or are forbidden are reported")
    else:
        env.reach("warned")
        env.check("WARNING" in err and squeeze(os.strerror(code)) in squeeze(err), "a fault is not reported")


def run_ignore(env, n):
    """An ignore file that cannot be read is reported once, not for every entry."""
    env.reach("ignore file")
    code = getattr(errno, env.pick("errno", ("EACCES", "EIO")))
    sub = {f"f{i}": F(b"") for i in range(env.int("files", 0, 3).__index__())}
    top = {"a": F(b""), "b": F(b"")}
    broken = []
    if n >= 1:
        top[".ignore"] = F(b"a\n", errors={"open": code})
        broken.append("/w/.ignore")
    if n == 2:
        sub[".gitignore"] = F(b"f0\n", errors={"open": code})
        broken.append("/w/sub/.gitignore")
    top["sub"] = D(sub)
    how = env.pick("how", (["-I"], ["ignored=no"], ["-I", "ignored=no"], ["-o", "path,ignored"], ["-I", "-e", "ignore.path=x"]))
    status, out, err, world = search(top, "--no-parent-ignore", *how)
    env.observe([status, out])
    env.check(status == 0, "an unreadable ignore file ends the search")
    lines = [l.split()[0] for l in out.split("\n")[:-1]]
    want = list(top) + ["sub/" + p for p in sub]
    env.check(sorted(lines) == sorted(want), "wrong results")
    for p in broken:
        env.check(squeeze(err).count("'" + p + "'") == 1, "an unreadable ignore file is not reported once")
    if not broken:
        env.reach("nothing wrong")
        env.check(err == "", "a message without a reason")
    env.check(err.count("WARNING") == len(broken), "wrong number of warnings")


def run_start(env, mode):
    """Commands that cannot be started are reported on standard error."""
    env.reach("cannot start")
    n = env.pick("n", (1, 2))
    code = getattr(errno, env.pick("errno", ("ENOENT", "EACCES", "ENOEXEC")))
    status, out, err, world = search(tree(n), *MODES[mode], outcome=lambda i, a: -code)
    env.observe([status, out])
    env.check(status == 3, "wrong status")
    env.check(out == "", "a message on standard output")
    env.check(squeeze(os.strerror(code)) in squeeze(err), "the reason is not reported")
