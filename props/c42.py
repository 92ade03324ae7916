"""C42: colours."""

from .common import *

LABELS = ("forced", "terminal", "no terminal", "never", "NO_COLOR", "json", "di", "ln", "or", "ex", "extension", "plain", "below",
          "last rule", "reset", "no rules", "list", "fields", "others")
BOUNDS = ("every combination of --color (not given, auto, never, always; from the command line or FF_OPTIONS), a terminal or not, "
          "NO_COLOR and the output modes; files of every kind and with every permission bits, names of up to 4 characters with and "
          "without extension, in the start directory, below it or below another one; tables of up to six rules, each present, "
          "missing, empty, of lower or higher number, or given twice, among others of which ff(1) knows nothing; "
          "two or three columns padded to up to 9 characters")
ASSUME = ("rules for suffixes that are not of the form *.extension are not specified", "sockets, pipes and devices are not executable",
          "NO_COLOR together with --color=always is not specified", "ln=target is not specified")
BUDGET = {"quick": 100, "thorough": 1200}

MODES = {"console": [], "sorted": ["-S"], "name": ["-o", "path,name,size"], "verbose": ["-v"], "json": ["--json"], "jsonl": ["--jsonl"],
         "count": ["--count"], "print0": ["-0"], "limit": ["-S", "-l0:1"]}
TABLE = "di=1:ln=2:or=3:ex=4:*.t=5"


def cases(tier):
    for mode in MODES:
        yield ("when", mode)
    for kind in ("f", "d", "l", "o", "p", "s"):
        for spec in ("path", "path:h", "name"):
            if spec == "name" and kind == "d" or spec == "path:h" and kind not in "lo":
                continue
            yield ("which", kind, spec)
    yield ("mode",)
    for n in (1, 2, 3, 4):
        yield ("extension", n)
    yield ("twice",)
    for kind in ("f", "d", "l", "o", "x"):
        yield ("fields", kind)
    yield ("table", 3)
    yield ("reset",)
    yield ("unset",)
    for n in (2, 3):
        yield ("others", n)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def coloured(text):
    """Characters with the number of the rule they are shown with, or ""."""
    out = []
    cur = ""
    i = 0
    while i < len(text):
        c = text[i]
        i += 1
        if c != "\x1b":
            out.append((c, cur))
            continue
        if text[i:i + 1] != "[":
            raise AssertionError("malformed escape sequence")
        i += 1
        seq = ""
        while text[i:i + 1] != "m":
            if i >= len(text):
                raise AssertionError("malformed escape sequence")
            seq += text[i]
            i += 1
        i += 1
        cur = "" if seq == "0" else seq
    return out, cur


def expect(env, out, pieces, what):
    """pieces is [(text, rule)]"""
    got, rest = coloured(out)
    want = [(c, rule) for text, rule in pieces for c in text]
    env.check(len(got) == len(want), what)
    ok = True
    for (a, x), (b, y) in zip(got, want):
        ok = ok & (a == b) & (len(x) == len(y)) & (x == y)
    env.check(ok, what)
    env.check(rest == "", "the colour is not reset")


def search(root, *argv, table=TABLE, tty=False, **environ):
    world = World(root)
    world.stdout.tty = tty
    if table is not None:
        world.environ["LS_COLORS"] = table
    for k, v in environ.items():
        world.environ[k] = v
    with active(world):
        status = programme(*argv)
        return status, world.stdout.text(), world.stderr.text()


def run_others(env, n):
    """Entries of the same name, in several directories, do not get one another's colours."""
    env.reach("others")
    nodes = {"plain": (lambda: F(b""), ""), "exec": (lambda: F(b"", mode=0o100755), "4"), "link": (lambda: L("/w"), "2"),
             "orphan": (lambda: L("gone"), "3"), "fifo": (lambda: W.Node("p"), ""), "dir": (lambda: D({}), "1")}
    kinds = [env.pick(f"kind{i}", tuple(nodes)) for i in range(n)]
    ext = env.flag("extension")
    name = "f.t" if ext else "f"
    tree = {}
    for i, k in enumerate(kinds):
        tree["abc"[i]] = D({name: nodes[k][0]()})
    for d in tree.values():
        for _, node in d.children:
            node.st.st_ino = 7
    starts = env.flag("several starts")
    spec = env.pick("column", ("path", "name"))
    argv = [x for d in tree for x in ("-D", d)] if starts else []
    status, out, err = search(D({"w": D(tree)}), "--color=always", "-o", spec, "name=" + name, *argv)
    env.check(status == 0 and out.endswith("\n"), "wrong status")
    lines = out.split("\n")[:-1]
    env.check(len(lines) == n, "wrong number of lines")
    for i, (line, k) in enumerate(zip(lines, kinds)):
        rule = nodes[k][1] or ("5" if ext else "")
        if spec == "name" and k == "dir":
            continue
        if spec == "name":
            pieces = [(name, rule)]
        elif k == "dir":
            pieces = [("abc"[i] + "/" + name, "1")]
        else:
            pieces = [("abc"[i] + "/", "1"), (name, rule)]
        expect(env, line, pieces, "the colour of another entry of this name")


# ----------------------------------------------------------------------- when --
def run_when(env, mode):
    """Escape sequences are there when they are wanted."""
    tty = env.flag("terminal")
    no = env.flag("NO_COLOR")
    when = env.pick("--color", ("", "auto", "never", "always"))
    if no and when == "always":
        return
    environ = {"NO_COLOR": env.pick("value", ("1", "yes"))} if no else {}
    argv = []
    if when:
        spelling = env.pick("spelling", ("=", " ", "C", "env"))
        if spelling == "env":
            environ["FF_OPTIONS"] = "--color=" + when
        else:
            argv = {"=": ["--color=" + when], " ": ["--color", when], "C": ["-C" + when]}[spelling]
    tree = D({"w": D({"d": D({})})})
    status, out, err = search(tree, *argv, *MODES[mode], tty=tty, **environ)
    env.observe(out)
    env.check(status == 0, "wrong status")
    if "json" in mode or mode == "count":
        env.reach("json")
        want = False
    elif when == "always":
        env.reach("forced")
        want = True
    elif when == "never":
        env.reach("never")
        want = False
    elif no:
        env.reach("NO_COLOR")
        want = False
    else:
        env.reach("terminal" if tty else "no terminal")
        want = tty
    env.check(("\x1b" in out) == want, "coloured although this is not wanted, or not although it is")


# ---------------------------------------------------------------------- which --
def make(kind, **kw):
    return {"f": lambda: F(b"", **kw), "d": lambda: D({}, **kw), "l": lambda: L("/e"), "o": lambda: L("/gone"),
            "p": lambda: W.Node("p", mode=0o010644), "s": lambda: W.Node("s", mode=0o140644)}[kind]()


RULE = {"f": "", "d": "di", "l": "ln", "o": "or", "p": "", "s": ""}


def run_which(env, kind, spec):
    """A path is shown in the colour of what it is, its directory in that of directories."""
    name = env.text("name", 2, ["a.", "b "])
    rule = RULE[kind]
    env.reach(rule or "plain")
    rules = {}
    for i, r in enumerate(("di", "ln", "or", "ex")):
        if r == rule or r == "di" or env.flag(r):
            if r not in (rule, "di") or env.flag(r):
                rules[r] = str(31 + i)
    link = ""
    if kind in "lo":
        # relative to the directory of the link
        link = env.pick("link", ("/e", "y")) if kind == "l" else env.pick("link", ("/gone", "d"))
    node = L(link) if link else make(kind)
    where = env.pick("where", ("top", "below", "start", "root"))
    if where == "top":
        world, argv, prefix = D({"w": D({name: node, "y": F(b"")}), "e": F(b"")}), ["not", "name=y"], ""
    elif where == "below":
        env.reach("below")
        world, argv, prefix = D({"w": D({"d": D({"e": D({name: node, "y": F(b"")})})}), "e": F(b"")}), ["depth=2", "not", "name=y"], "d/e/"
    elif where == "start":
        world, argv, prefix = D({"w": D({}), "v": D({name: node, "y": F(b"")}), "e": F(b"")}), ["-D", "/v", "not", "name=y"], "/v/"
    else:
        world, argv, prefix = D({"w": D({"x": D({name: node, "y": F(b"")})}), "e": F(b"")}), ["-a", "-D", "x", "not", "name=y"], "/w/x/"
    status, out, err = search(world, *argv, "-o", spec, "--color=always", table=":".join(f"{k}={v}" for k, v in rules.items()) or "xx=1")
    env.check(status == 0, "wrong status")
    if not rules:
        env.reach("no rules")
    env.observe(out)
    own = rules.get(rule, "")
    if spec == "name":
        pieces = [(name, own)]
    elif kind == "d":
        pieces = [(prefix + name, own)]
    else:
        pieces = [(prefix, rules.get("di", "")), (name, own)]
        if spec == "path:h":
            pieces.append((" -> " + link, ""))
    expect(env, out, pieces + [("\n", "")], "wrong colours")


def run_fields(env, kind):
    """With several columns each has its own colour, and their widths are those of what is shown."""
    env.reach("fields")
    name = env.pick("name", ("a", "ab.t", "abcdefg"))
    width = env.int("width", -9, 9).__index__()
    follow = kind in "fdlx" and env.flag("-L")
    node = make("f", mode=0o100755) if kind == "x" else make(kind)
    below = env.flag("below")
    tree = D({"w": D({"d": D({name: node})}) if below else D({name: node}), "e": F(b"")})
    order = env.pick("columns", (("path", "size"), ("size", "path"), ("name", "dir"), ("dir", "type", "path")))
    columns = [f"{c}:{width}" if c in ("path", "name") else c for c in order]
    status, out, err = search(tree, f"depth={1 if below else 0}", "-Calways", *(["-L"] if follow else []), "--sep", "|", "--all",
                              "-o", ",".join(columns))
    env.observe(out)
    env.check(status == 0, "wrong status")
    own = {"f": "", "d": "1", "l": "" if follow else "2", "o": "3", "x": "4"}[kind]
    if name == "ab.t" and own == "" and kind in "fl":
        own = "5"
    prefix = "d/" if below else ""
    pieces = []
    for c in order:
        if pieces:
            pieces.append(("|", ""))
        if c == "path":
            part = [(prefix + name, "1")] if kind == "d" else [(prefix, "1"), (name, own)]
        elif c == "name":
            # the name of a directory is no path
            if kind == "d":
                return
            part = [(name, own)]
        elif c == "dir":
            part = [(prefix[:-1], "1")]
        elif c == "size":
            part = [(None, "")]
        else:
            part = [({"f": "file", "x": "file", "d": "directory", "l": "file" if follow else "symlink", "o": "symlink"}[kind], "")]
        if c in ("path", "name"):
            fill = abs(width) - sum(len(t) for t, _ in part)
            if fill > 0:
                part = part + [(" " * fill, "")] if width < 0 else [(" " * fill, "")] + part
        pieces += part
    if "size" in order:
        # whatever it is, it is not coloured
        got, rest = coloured(out)
        digits = [(x, r) for x, r in got if "0" <= x <= "9"]
        env.check(all(r == "" for x, r in digits), "a size is coloured")
        text = "".join(x for x, r in digits)
        pieces = [(text, r) if t is None else (t, r) for t, r in pieces]
    expect(env, out, pieces + [("\n", "")], "wrong colours")


def run_mode(env):
    """Regular files anybody may execute are executable."""
    perm = env.bits("perm", 12)
    name = env.pick("name", ("a", "a.t"))
    present = env.flag("ex")
    status, out, err = search(D({"w": D({name: F(b"", mode=perm | 0o100000)})}), "-Calways",
                              table="ex=4:*.t=5:di=1" if present else "*.t=5:di=1")
    env.check(status == 0, "wrong status")
    executable = bool((perm & 0o111) != 0)
    env.reach("ex" if executable else "plain")
    rule = ("4" if present else "") if executable else "5" if name == "a.t" else ""
    expect(env, out, [(name, rule), ("\n", "")], "wrong colours")


def run_extension(env, n):
    """Other files are shown in the colour of their extension."""
    name = env.text("name", n, {1: ["ab"], 2: [".a", "t."], 3: ["ab.", ".t", "tu."], 4: ["a.", ".a", "t.", "tu"]}[n])
    if name == "." or name == "..":
        return
    exts = {}
    for e in ("t", "at", "u"):
        if env.flag(e):
            exts[e] = env.pick("v" + e, ("5", "01;35"))
    table = "di=1:" + ":".join(f"*.{e}={v}" for e, v in exts.items())
    status, out, err = search(D({"w": D({name: F(b"")})}), "--color=always", table=table)
    env.check(status == 0, "wrong status")
    # what follows the last dot, unless the name begins with it
    dot = -1
    for i in range(len(name)):
        if name[i] == "." and not all(bool(name[j] == ".") for j in range(i)):
            dot = i
    rule = ""
    if dot >= 0:
        for e, v in exts.items():
            if len(name) - dot - 1 == len(e) and name[dot + 1:] == e:
                env.reach("extension")
                rule = v
    if not rule:
        env.reach("plain")
    expect(env, out, [(name, rule), ("\n", "")], "wrong colours")


def run_twice(env):
    """The last of several rules for the same counts."""
    env.reach("last rule")
    kind = env.pick("kind", ("d", "l", "o", "x", "t"))
    key = {"d": "di", "l": "ln", "o": "or", "x": "ex", "t": "*.t"}[kind]
    parts = ["zz=1", "*.z=2", "xx=3"]
    one, two = env.pick("one", ("7", "")), env.pick("two", ("8", "01;32"))
    parts.insert(env.int("at", 0, 2).__index__(), f"{key}={one}")
    parts.append(f"{key}={two}")
    if env.flag("after"):
        parts.append("di=9" if kind != "d" else "ln=9")
    node = make("f", mode=0o100755) if kind == "x" else make("f") if kind == "t" else make(kind)
    name = "a.t" if kind == "t" else "a"
    status, out, err = search(D({"w": D({name: node}), "e": F(b"")}), "--color=always", table=":".join(parts))
    env.check(status == 0, "wrong status")
    expect(env, out, [(name, two), ("\n", "")], "wrong colours")


def run_unset(env):
    """Without rules there is nothing to show in colours."""
    env.reach("no rules")
    argv = env.pick("mode", ([], ["-S"], ["-o", "path:h,name,dir"], ["-v"]))
    table = env.pick("table", (None, "", ":", "=", "di", "di=", "*."))
    node = make(env.pick("kind", ("f", "d", "l", "o", "p")))
    status, out, err = search(D({"w": D({"s": D({"a.t": node})}), "e": F(b"")}), "-Calways", "depth=1", *argv, table=table)
    plain = search(D({"w": D({"s": D({"a.t": node})}), "e": F(b"")}), "-Cnever", "depth=1", *argv, table=table)
    env.observe(out)
    env.check(status == plain[0] == 0, "wrong status")
    env.check("".join(c for c, r in coloured(out)[0] if r == "") == plain[1], "wrong text")


def run_reset(env):
    """Colours are reset, whatever rules there are for this."""
    env.reach("reset")
    parts = ["di=1", "ex=4"]
    value = env.pick("rs", ("", "0", "00", "0;0", "rs"))
    parts.insert(env.int("at", 0, 2).__index__(), "rs" if value == "rs" else "rs=" + value)
    status, out, err = search(D({"w": D({"a": F(b"", mode=0o100755), "d": D({})})}), "-S", "-Calways", table=":".join(parts))
    env.observe(out)
    env.check(status == 0, "wrong status")
    rs = value if value in ("00", "0;0") else "0"
    env.check(out == f"\x1b[4ma\x1b[{rs}m\n\x1b[1md\x1b[{rs}m\n", "the colour is not reset")


def run_table(env, n):
    """Whatever else the table contains: the rules that are there are followed."""
    env.reach("list")
    junk = env.text("junk", n, ["=:*.", ":=*d", "=i:"][:n])
    last = env.flag("last")
    table = "di=1:" + junk + ":ex=4" if not last else "di=1:ex=4:" + junk
    # rules for the kinds at hand are not junk
    for k in ("di", "ex"):
        if k in junk:
            return
    status, out, err = search(D({"w": D({"a": F(b"", mode=0o100755), "d": D({})})}), "-S", "--color=always", table=table)
    env.observe(out)
    env.check(status == 0, "a strange table ends the search")
    env.check(err == "", "a message without a reason")
    expect(env, out, [("a", "4"), ("\n", ""), ("d", "1"), ("\n", "")], "wrong colours")
    env.reach("reset")
