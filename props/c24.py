"""C24: exec templates."""

from .common import *

LABELS = ("literal", "braces", "placeholder", "attribute", "modifier", "appended", "in command", "missing", "all", "n",
          "batch", "collected", "immediate", "refused", "lone brace", "empty argument", "limited")
BOUNDS = ("arguments of up to 3 (thorough 4) tokens out of {{, }}, every placeholder, attributes with modifiers, lone "
          "braces and any character out of a letter, blank, quote, $, *, newline; up to 2 arguments after the command; file names "
          "of up to 3 characters out of blanks, quotes, braces, newlines, $, *, undecodable bytes; up to 3 results, "
          "with present and missing values; immediate, collected (sorted, limited) and batch execution")
BUDGET = {"quick": 200, "thorough": 2400}

TOKENS = ("{{", "}}", "{}", "{/}", "{//}", "{.}", "{/.}", "{..}", "{name}", "{probe.str}", "{probe.num:x}", "x", "{}x")
MODES = ("immediate", "collected", "batch")


def cases(tier):
    deep = tier == "thorough"
    for mode in MODES:
        for a in TOKENS:
            yield ("tokens", mode, a, 2 if deep else 1)
        for n in (1, 2) + (3,) * deep:
            yield ("names", mode, n)
        for kind in ("str", "list", "num"):
            yield ("missing", mode, kind)
        yield ("plain", mode)
        yield ("braces", mode)
        yield ("refused", mode)
        yield ("modifiers", mode)
    yield ("command",)
    yield ("many",)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def search(env, mode, tree, template, *argv):
    env.reach(mode)
    world = ExecWorld(D({"w": D(tree)}))
    with active(world):
        extra = {"immediate": [], "collected": ["-S"], "batch": ["-S"]}[mode]
        status = programme("type=f", *argv, *extra, "-X" if mode == "batch" else "-x", *template)
        env.observe(world.started)
    return status, world.started


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) for x, y in zip(a, b)) and all(x == y for x, y in zip(a, b))


def verify(env, status, started, want):
    env.check(status == 0, "the search fails")
    env.check(len(started) == len(want), "wrong number of commands")
    for a, b in zip(started, want):
        env.check(same(a, b), "wrong arguments")


def token(env, name):
    t = env.pick(name, TOKENS + ("",))
    return env.text(name + "c", 1, "a '$*\n") if t == "x" else t


def meaning(env, t, stem, ext):
    name = stem + "." + ext
    if t in ("{{", "}}"):
        env.reach("braces")
        return t[0]
    if len(t) < 2:
        env.reach("literal")
        return t
    env.reach("placeholder")
    if t[1:6] == "probe":
        env.reach("attribute")
    return {"{}": "d/" + name, "{/}": name, "{//}": "d", "{.}": "d/" + stem, "{/.}": stem, "{..}": ext, "{name}": name,
            "{probe.str}": "v{}", "{probe.num:x}": "ff", "{}x": "d/" + name + "x"}[t]


def run_tokens(env, mode, first, n):
    if first == "x":
        first = env.text("literal", 1, "a '$*\n")
    toks = [first] + [token(env, f"token{i}") for i in range(n)]
    second = token(env, "second")
    stem = env.text("stem", 1, ["a {}'\n\udc80"])
    path = f"d/{stem}.e"
    Probe.values = {path: {"str": "v{}", "num": 255}}
    status, started = search(env, mode, {"d": D({stem + ".e": F(b"")})}, ["cmd", "".join(toks), second])
    want = ["cmd", "".join([meaning(env, t, stem, "e") for t in toks]), meaning(env, second, stem, "e")]
    if not any(len(t) > 1 and t not in ("{{", "}}") for t in toks + [second]):
        env.reach("appended")
        want.append(path)
    verify(env, status, started, [want])


NAME = ["a {$'", "b}\n\udc80*", "c-\""]


def run_names(env, mode, n):
    """Whatever the names contain."""
    stem = env.text("stem", n, NAME[:n])
    ext = env.text("ext", 1, "x '")
    name = stem + "." + ext
    Probe.values = {}
    t = env.pick("template", (["{}"], ["a={/}", "--{..}"], ["{//}", "{.}", "{/.}"], ["{}{}"], []))
    p = "d/" + name
    status, started = search(env, mode, {"d": D({name: F(b"")})}, ["cmd", *t])
    want = {0: [p], 1: [p], 2: ["a=" + name, "--" + ext], 3: ["d", "d/" + stem, stem]}[len(t)]
    if t == ["{}{}"]:
        want = [p + p]
    verify(env, status, started, [["cmd"] + want])


def run_missing(env, mode, kind):
    """Results that lack a value."""
    how = env.pick("how", ("", "all", "n"))
    Probe.values = {}
    vals = []
    for i in range(3):
        if i < 2 and env.flag(f"missing{i}"):
            env.reach("missing")
            vals.append(None)
        else:
            if kind == "str":
                v = env.text(f"v{i}", 1, "a b")
                t = v
            elif kind == "list":
                v = ["a", env.text(f"v{i}", 1, "x,")]
                t = "a," + v[1]
            else:
                v = env.int(f"v{i}", 0, 12)
                t = str(v)
            Probe.values[f"f{i}"] = {kind: v}
            vals.append(t)
    two = env.flag("two")
    t = ["<{probe." + kind + (":n" if how == "n" else "") + "}>"]
    status, started = search(env, mode, {f"f{i}": F(b"") for i in range(3)}, ["cmd", *t, "-", *["{}"] * two],
                             *["--all"] * (how == "all"))
    if how:
        env.reach(how)
        vals = ["" if v is None else v for v in vals]
    if mode != "batch":
        want = [["cmd", f"<{v}>", "-"] + [f"f{i}"] * two for i, v in enumerate(vals) if v is not None]
        if mode == "immediate" or mode == "collected":
            verify(env, status, started, want)
        return
    want = ["cmd"] + [f"<{v}>" for v in vals if v is not None] + ["-"]
    if not two:
        verify(env, status, started, [want])
        return
    # Whether a result lacking one value still shows up in the other argument is left open
    a = want + ["f0", "f1", "f2"]
    b = want + [f"f{i}" for i, v in enumerate(vals) if v is not None]
    env.check(status == 0, "the search fails")
    env.check(len(started) == 1 and (same(started[0], a) or same(started[0], b)), "wrong arguments")


def run_plain(env, mode):
    """No placeholder: the path is appended."""
    args = []
    for i in range(env.pick("n", (0, 1, 2))):
        t = env.text(f"arg{i}", env.pick(f"len{i}", (0, 1, 2)), "a -*")
        if not len(t):
            env.reach("empty argument")
        args.append(t)
    Probe.values = {}
    status, started = search(env, mode, {"a": F(b""), "b": F(b"")}, ["cmd", *args])
    env.reach("appended")
    if mode == "batch":
        verify(env, status, started, [["cmd", *args, "a", "b"]])
    else:
        verify(env, status, started, [["cmd", *args, "a"], ["cmd", *args, "b"]])


def run_braces(env, mode):
    """Single braces are literal text."""
    env.reach("lone brace")
    a = env.pick("arg", ("{", "}", "a{", "}a", "a}b", "}{", "{{{", "}}}", "a{{}}", "{{a}}", "{{{{", "{{}"))
    c = env.text("c", 1, "a ")
    want = {"{{{": "{{", "}}}": "}}", "a{{}}": "a{}", "{{a}}": "{a}", "{{{{": "{{", "{{}": "{}"}.get(a, a)
    Probe.values = {}
    status, started = search(env, mode, {"f": F(b"")}, ["cmd", c + a])
    verify(env, status, started, [["cmd", c + want, "f"]])


def run_refused(env, mode):
    """Placeholders that mean nothing."""
    env.reach("refused")
    a = env.pick("arg", ("{nosuchattribute}", "{probe.nosuch}", "{nosuch.name}", "{ }", "{path:q}", "a{\"k\": 1}b", "{path:5:h}"))
    Probe.values = {}
    status, started = search(env, mode, {"f": F(b"")}, ["cmd", a])
    env.check(status in (2, 11), "a meaningless placeholder is accepted")
    env.check(not started, "a command is started")


def run_modifiers(env, mode):
    env.reach("modifier")
    v = env.pick("v", (0, 8, 493, 1536))
    Probe.values = {"f": {"num": v, "len": v, "bits": v, "flag": bool(v)}}
    m, want = env.pick("m", (("num", "d"), ("num:x", "x"), ("num:o", "o"), ("len:h", ""), ("len:x", "x"), ("bits:o", "o"),
                             ("bits:h", ""), ("flag", ""), ("num:n", "d")))
    import stat
    if want:
        want = format(v, want)
    elif m == "len:h":
        want = str(v) if v < 1024 else "1.5K"
    elif m == "bits:h":
        want = stat.filemode(v)
    else:
        want = "true" if v else "false"
    t = env.pick("t", ("{probe.%s}", "a{probe.%s}b"))
    status, started = search(env, mode, {"f": F(b"")}, ["cmd", t % m])
    verify(env, status, started, [["cmd", want if t[0] == "{" else "a" + want + "b"]])


def run_command(env):
    """A placeholder in the command itself."""
    env.reach("in command")
    cmd = env.pick("cmd", ("{/}", "run-{..}", "{{x}}", "./{}"))
    rest = env.pick("rest", ([], ["a"], ["{}"]))
    Probe.values = {}
    want = {"{/}": "f.e", "run-{..}": "run-e", "{{x}}": "{x}", "./{}": "./f.e"}[cmd]
    status, started = search(env, "immediate", {"f.e": F(b"")}, [cmd, *rest])
    verify(env, status, started, [[want, *([] if rest == ["{}"] else rest), "f.e"]])
    status, started = search(env, "batch", {"f.e": F(b"")}, [cmd, *rest])
    if cmd == "{{x}}":
        verify(env, status, started, [[want, *([] if rest == ["{}"] else rest), "f.e"]])
    else:
        env.check(status == 2 and not started, "a batch command with placeholders is accepted")


def run_many(env):
    """The selected slice of the results, in order."""
    env.reach("limited")
    Probe.values = {}
    lo, hi = env.pick("lo", (0, 1, 2)), env.pick("hi", (1, 2, 4))
    names = ["a", "b", "c"]
    rev = env.flag("reverse")
    batch = env.flag("batch")
    status, started = search(env, "batch" if batch else "collected", {n: F(b"") for n in ("b", "a", "c")}, ["cmd", "{}"],
                             *["-R"] * rev, "-l", f"{lo}:{hi}")
    if rev:
        names.reverse()
    names = names[lo:hi]
    if batch:
        verify(env, status, started, [["cmd", *names]] if names else [])
    else:
        verify(env, status, started, [["cmd", n] for n in names])
