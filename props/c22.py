"""C22: text output."""

from .common import *

LABELS = ("fields", "width", "left", "separator", "missing", "all", "n", "null", "list", "undecodable",
          "colour", "no colours", "link", "broken", "exec", "dir", "ext", "follow", "several", "output", "root", "others")
BOUNDS = ("one to three output attributes of every type with the widths 0, 1, 3, -3, -1 and none and every modifier, "
          "separators of up to 2 characters, both terminators, values of up to 3 characters or numbers up to 300, present "
          "or missing, with and without --all; files, directories, links (broken or not), executables with "
          "names of up to 3 characters, below the working directory, the root directory and others, path, name and dir with and without link target, with all 6 colour rules "
          "present, empty or missing, an unset and an empty LS_COLORS")
BUDGET = {"quick": 150, "thorough": 2400}

WIDTHS = (None, 0, 1, 3, -3, -1)


def cases(tier):
    deep = tier == "thorough"
    for kind in ("str", "loc", "kind", "num", "len", "dur", "when", "flag", "bits", "list"):
        yield ("one", kind)
    for a, b in (("str", "num"), ("list", "loc"), ("flag", "str"), ("bits", "len")):
        for where in range(4):
            yield ("two", a, b, where)
    for n in (1, 2) + (3,) * deep:
        yield ("sep", n)
    yield ("three",)
    for what in ("file", "ext", "dir", "link", "broken", "exec", "below"):
        for spec in ("path", "name", "dir", "path:h", "path:6", "path:-6", "name:6", "dir:-6", "path:7h", "name,path"):
            for colour in ("none", "unset", "empty", "set"):
                yield ("names", what, spec, colour)
    for what in ("file", "ext", "dir", "link", "broken", "exec", "below"):
        for start in ("/", "/w", "../w", "x"):
            yield ("root", what, start)
    yield ("verbose",)
    for starts in (False, True):
        yield ("others", starts)


SAME = {"size": ("300", "7"), "size:h": ("300", "7"), "size:x": ("12c", "7"), "size:5": ("  300", "    7"), "perm": ("420", "493"),
        "perm:o": ("644", "755"), "name": ("f", "f"), "name:-3": ("f  ", "f  "), "links": ("1", "2"), "type": ("file", "file"),
        "path": ("a/f", "b/f"), "path:5": ("  a/f", "  b/f"), "probe.str:n": ("", "x"), "exec": ("false", "true")}


def run_others(env, starts):
    """Columns of the same attribute, and entries that have much in common."""
    env.reach("others")
    columns = [env.pick(f"column{i}", tuple(SAME)) for i in range(2)]
    tree = D({"w": D({"a": D({"f": F(b"", size=300)}), "b": D({"f": F(b"", size=7, nlink=2, mode=0o100755)})})})
    for _, d in dict(tree.children)["w"].children:
        d.children[0][1].st.st_ino = 7
    order = ("a", "b") if not starts or env.flag("a first") else ("b", "a")
    world = World(tree)
    with active(world):
        Probe.values.clear()
        Probe.values["b/f"] = {"str": "x"}
        status = programme("-o", ",".join(columns), "--sep", "|", "name=f", *([x for d in order for x in ("-D", d)] if starts else []))
        out = world.stdout.text()
        Probe.values.clear()
    env.check(status == 0, "wrong status")
    env.check(out == "".join("|".join(SAME[c]["ab".index(d)] for c in columns) + "\n" for d in order), "wrong columns")


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def field(env, i, kind, mods):
    w = env.pick(f"width{i}", WIDTHS)
    m = env.pick(f"modifier{i}", mods) if len(mods) > 1 else mods[0]
    if w is not None:
        env.reach("width")
        if w < 0:
            env.reach("left")
    spec = ("" if w is None else str(w)) + m
    return f"probe.{kind}" + (":" + spec if spec else ""), w, m


MODS = {"num": ("", "x", "o", "h", "n"), "bits": ("", "x", "o", "h", "n"), "len": ("", "x", "h"), "when": ("", "h"),
        "dur": ("", "h"), "flag": ("", "n"), "str": ("", "n"), "loc": ("", "n"), "list": ("", "n"), "kind": ("", "n")}


def value(env, name, kind, mod, n=None):
    """(value, its text)"""
    import stat
    import time
    if kind in ("str", "loc"):
        v = env.text(name, env.pick(name + "len", (0, 1, 2, 4)) if n is None else n, ["a\udc80", "b \xe9", "c", "d"])
        return v, v
    if kind == "kind":
        v = env.pick(name, ("file", "fifo"))
        return v, v
    if kind == "list":
        env.reach("list")
        v = [env.text(f"{name}{i}", 1, "a,") for i in range(env.pick(name + "len", (0, 1, 2)))]
        return v, ",".join(v)
    if kind == "flag":
        v = env.bool(name)
        return v, "true" if v else "false"
    if mod == "h" and kind != "num" or kind in ("when", "bits"):
        v = env.pick(name, {"len": (0, 1000, 1024, 1536), "dur": (0, 59, 60, 3600), "when": (0, 1600000000),
                            "bits": (0, 0o100644, 0o104755, 0o40700)}[kind])
        if mod != "h":
            return v, format(v, mod or "d") if mod != "n" else str(v)
        if kind == "len":
            return v, {0: "0", 1000: "1000", 1024: "1.0K", 1536: "1.5K"}[v]
        if kind == "bits":
            return v, stat.filemode(v)
        if kind == "when":
            return v, time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(v))
        return v, None
    v = env.int(name, 0, 300)
    if mod in ("x", "o"):
        v = env.pick(name + "v", (0, 9, 255))
        return v, format(v, mod)
    return v, str(v)


def pad(text, w):
    if w is None:
        return text
    fill = " " * max(0, abs(w) - len(text))
    return text + fill if w < 0 else fill + text


def search(env, n, end, *argv):
    world = World(D({"w": D({f"f{i}": F(b"") for i in range(n)})}))
    with active(world):
        status = programme(*argv)
        out = world.stdout.text()
    env.check(status == 0, "the search fails")
    env.observe(out)
    return out


def odd(text):
    return any(c == "\udc80" for c in text)


def visible(text):
    """What is printed of a text."""
    return "".join("\\udc80" if c == "\udc80" else c for c in text) if odd(text) else text


def compare(env, out, want):
    if odd(want):
        env.reach("undecodable")
        want = visible(want)
    env.check(len(out) == len(want) and out == want, "wrong output")


def run_one(env, kind):
    env.reach("fields")
    spec, w, m = field(env, 0, kind, MODS[kind])
    all_ = env.flag("all")
    end = "\n"
    if env.flag("null"):
        env.reach("null")
        end = "\0"
    if env.flag("missing"):
        env.reach("missing")
        Probe.values = {}
        if all_ or m == "n":
            env.reach("all" if all_ else "n")
            # whether a missing value is padded is left open
            want = end if w is None else None
        else:
            want = ""
    else:
        v, text = value(env, "v", kind, m)
        Probe.values = {"f0": {kind: v}}
        want = None if text is None else pad(text, w) + end
    out = search(env, 1, end, "-o", spec, *["--all"] * all_, *["-0"] * (end == "\0"))
    if want is None:
        env.check(out[-1:] == end and out.count(end) == 1, "not one record")
        if kind == "dur" and w is not None and Probe.values:
            body = out[:-1]
            env.check(len(body) >= abs(w), "not padded")
    else:
        compare(env, out, want)


def run_two(env, a, b, where):
    """Two attributes, either may be missing."""
    mods = ("", "n")
    m = [env.pick("modifier0", mods), env.pick("modifier1", mods)]
    w = [env.pick("width0", (None, 3)), env.pick("width1", (None, -3))]
    all_ = env.flag("all")
    spec = ",".join(f"probe.{k}" + (":" if m[i] or w[i] else "") + (str(w[i]) if w[i] else "") + m[i]
                    for i, k in enumerate((a, b)))
    vals, texts = {}, []
    for i, k in enumerate((a, b)):
        if where & (1 << i):
            env.reach("missing")
            texts.append(None)
        else:
            v, t = value(env, f"v{i}", k, m[i], 2)
            vals[k] = v
            texts.append(pad(t, w[i]))
    Probe.values = {"f0": vals}
    out = search(env, 1, "\n", "--output=" + spec, *["--all"] * all_)
    if any(t is None and not all_ and m[i] != "n" for i, t in enumerate(texts)):
        compare(env, out, "")
        return
    if any(t is None and w[i] for i, t in enumerate(texts)):
        env.check(out[-1:] == "\n", "no record")
        return
    compare(env, out, (texts[0] or "") + " " + (texts[1] or "") + "\n")


def run_sep(env, n):
    env.reach("separator")
    sep = env.text("separator", n, "\\tn:x ")
    Probe.values = {"f0": {"num": 1, "str": "a"}}
    out = search(env, 1, "\n", "-o", "probe.num,probe.str,probe.num", "--sep", sep)
    real = []
    i = 0
    while i < n:
        if i + 1 < n and (sep[i] == "\\") & ((sep[i + 1] == "t") | (sep[i + 1] == "n")):
            real.append("\t" if sep[i + 1] == "t" else "\n")
            i += 2
        else:
            real.append(sep[i])
            i += 1
    real = "".join(real)
    compare(env, out, "1" + real + "a" + real + "1\n")


def run_three(env):
    """Several results, some of which lack a value."""
    env.reach("several")
    all_ = env.flag("all")
    Probe.values = {}
    want = {}
    for i in range(3):
        if env.flag(f"missing{i}"):
            want[f"f{i}"] = f"  f{i}" if all_ else None
        else:
            v = env.text(f"v{i}", 1, "xy")
            Probe.values[f"f{i}"] = {"str": v}
            want[f"f{i}"] = v + f"  f{i}"
    out = search(env, 3, "\n", "-S", "-o", "probe.str,path", "--sep", "  ", *["--all"] * all_)
    compare(env, out, "".join(x + "\n" for x in want.values() if x is not None))


RULES = {"file": (), "ext": ("*.t",), "dir": ("di",), "link": ("ln", "or"), "broken": ("or", "ln"), "exec": ("ex", "*.t"),
         "below": ("di", "*.t")}


def strip(text):
    """Remove the escape sequences."""
    out, i = [], 0
    while i < len(text):
        if text[i] == "\x1b":
            i += 1
            if i >= len(text) or text[i] != "[":
                raise AssertionError("malformed escape sequence")
            i += 1
            while i < len(text) and text[i] in "0123456789;":
                i += 1
            if i >= len(text) or text[i] != "m":
                raise AssertionError("malformed escape sequence")
        else:
            out.append(text[i])
        i += 1
    return "".join(out)


def run_names(env, what, spec, colour):
    name = env.text("name", 2, ["ab ", "c\u0394"])
    if what in ("ext", "exec"):
        name = name + ".t"
    below = what == "below"
    follow = what == "link" and env.flag("follow")
    node = {"file": lambda: F(b""), "ext": lambda: F(b""), "below": lambda: F(b""), "dir": lambda: D({}),
            "link": lambda: L("/e"), "broken": lambda: L("/gone"), "exec": lambda: F(b"", mode=0o100711)}[what]()
    tree = {name: node}
    path, dir_ = name, ""
    if below:
        tree = {"d": D(tree)}
        path, dir_ = "d/" + name, "d"
    link = {"link": "/e", "broken": "/gone"}.get(what)
    env.reach({"file": "output", "below": "dir"}.get(what, what))
    argv = ["-o", spec, "-C" + ("never" if colour == "none" else "always")]
    if follow:
        env.reach("follow")
        argv.append("-L")
    world = World(D({"w": D(tree), "e": F(b"")}))
    if colour in ("unset", "empty"):
        env.reach("no colours")
    if colour == "empty":
        world.environ["LS_COLORS"] = ""
    elif colour == "set":
        env.reach("colour")
        rules = ["rs", *RULES[what]]
        parts = []
        for r in rules:
            v = env.pick("rule " + r, (None, "01;34", "") if r != "ln" else (None, "01;34", "", "target"))
            if v is not None:
                parts.append(f"{r}={v}")
        parts.append("mh=00")
        parts.append(("", "nonsense", "*=1", "a=b=c")[len(spec) % 4])
        world.environ["LS_COLORS"] = ":".join(parts)
    elif colour == "none":
        world.environ["LS_COLORS"] = "di=01;34:ex=1:ln=1:or=1:*.t=1:rs=0"
    with active(world):
        status = programme(*argv)
        out = world.stdout.text()
    env.check(status == 0, "the search fails")
    env.observe(out)
    got = strip(out) if colour == "set" else out
    want = []
    for p, d, n, k in [("d", "", "d", None)] * below + [(path, dir_, name, link)]:
        rec = []
        for f in spec.split(","):
            attribute, _, mod = f.partition(":")
            t = {"path": p, "dir": d, "name": n}[attribute]
            if mod.endswith("h") and k and not follow:
                t = t + " -> " + k
            w = mod.rstrip("h")
            rec.append(pad(t, int(w) if w else None))
        want.append(" ".join(rec) + "\n")
    compare(env, got, "".join(want))


def run_root(env, what, start):
    """Start directories other than the working directory."""
    env.reach("root")
    name = env.text("name", 2, ["ab", "c "])
    if what in ("ext", "exec"):
        name = name + ".t"
    node = {"file": lambda: F(b""), "ext": lambda: F(b""), "below": lambda: F(b""), "dir": lambda: D({}),
            "link": lambda: L("/e"), "broken": lambda: L("/gone"), "exec": lambda: F(b"", mode=0o100711)}[what]()
    tree = {name: node}
    if what == "below":
        tree = {"d": D(tree)}
    if start == "/":
        tree.update(w=D({}), e=F(b""))
        root = D(tree)
    else:
        root = D({"w": D(tree if start != "x" else {"x": D(tree)}), "e": F(b"")})
    world = World(root)
    world.cwd = "/w"
    world.environ["LS_COLORS"] = "di=01;34:ex=1:ln=1:or=1:*.t=1:rs=0"
    colour = env.flag("colour")
    spec = env.pick("spec", ("path", "dir,name", "path:h", "path:-9"))
    with active(world):
        status = programme("-o", spec, "--sep", "|", "-D", start, "-Calways" if colour else "-Cnever")
        out = world.stdout.text()
    env.check(status == 0, "the search fails")
    env.observe(out)
    if colour:
        out = strip(out)
    head = {"/": "/", "/w": "/w/", "../w": "../w/", "x": "x/"}[start]
    lines = []
    below = what == "below"
    for d, n in [(head, "d")] * below + [(head + "d/" if below else head, name)]:
        if spec == "dir,name":
            lines.append((d[:-1] or "/") + "|" + n)
        else:
            t = d + n
            if spec == "path:h" and what in ("link", "broken"):
                t = t + (" -> /e" if what == "link" else " -> /gone")
            lines.append(pad(t, -9 if spec == "path:-9" else None))
    if start == "/":
        lines += ["|".join(("/", n)) if spec == "dir,name" else pad("/" + n, -9 if spec == "path:-9" else None) for n in "we"]
    for line in lines:
        env.check(("\n" + out).count("\n" + line + "\n") == 1, "an entry is not printed once")
    env.check(len(out) == sum([len(line) + 1 for line in lines]), "wrong output")


def run_verbose(env):
    """-v: one line per entry."""
    mode = env.pick("mode", (0o100644, 0o104711))
    world = World(D({"w": D({"f": F(b"x" * 7, mode=mode, nlink=env.int("links", 1, 99), uid=7, gid=8, mtime=1600000000.5)})}))
    world.users = {7: "me"}
    world.groups = {8: "us"} if env.flag("group") else {}
    import stat
    import time
    with active(world):
        status = programme("-v")
        out = world.stdout.text()
    node = world.root.children[0][1].children[0][1]
    env.check(status == 0, "the search fails")
    env.observe(out)
    compare(env, out, " ".join([stat.filemode(mode), str(node.st.st_nlink), "me", "us" if world.groups else "", "    7",
                                time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(1600000000)), "f"]) + "\n")
