"""C15: depth ranges, hidden and ignored entries, other file systems."""

from .common import *

LABELS = ("single", "from", "to", "both", "all", "reversed", "bounded", "unbounded", "hidden", "foreign", "ignored",
          "link start", "query", "exclude")
BOUNDS = ("a tree of depth 5 with one to three entries per directory; one or two (thorough three) depth ranges "
          "of every form with one or two digits, all digits free, together with no, one, two alternative or bracketed tests "
          "whose outcomes are free; hidden names: names of 1 or 2 characters of a tree of depth 3, every "
          "character free, also below hidden start directories; devices of every entry of a tree of depth 3 and "
          "of the start directory, which may be given by a symbolic link, free; ignored entries: every entry "
          "free; up to three exclude tests of free outcome on attributes that may have no value; pairs of these options")
ASSUME = ("which entries count as ignored is C10's subject",)
BUDGET = {"quick": 150, "thorough": 2400}

FORMS = ("single", "from", "to", "both", "all")


def cases(tier):
    for a in FORMS:
        for q in range(4):
            yield ("depth", (a,), q, 1)
        yield ("depth", (a,), 1, 2)
        for b in FORMS:
            yield ("depth", (a, b), 0, 1)
            yield ("depth", (a, b), 2, 1)
            if tier == "thorough":
                for c in FORMS:
                    yield ("depth", (a, b, c), 3, 1)
    for opt in ("-H", "--hide"):
        for start in (".", ".h", "..h/", "v/"):
            yield ("hide", opt, start)
    for opt in ("--one-file-system", "--mount", "--xdev", "-H"):
        for start in (".", "s/", "l/", "l"):
            yield ("dev", opt, start)
    for opt in ("-I", "--ignore"):
        yield ("ignore", opt)
    yield ("pair",)
    for n in (1, 2, 3):
        yield ("exclude", n)


def output(env, *argv, cwd="/w", world=None):
    with active(world) as w:
        status = programme(*argv)
        out = printed()
    env.check(status == 0, "a search fails")
    env.observe(sorted(out))
    env.check(len(set(out)) == len(out), "an entry is printed twice")
    return out, [p for op, p in w.events if op == "scandir"]


def compare(env, out, want, message):
    for p, cond in want.items():
        env.check(cond if p in out else no(cond), message)
    env.check(all(p in want for p in out), "an unknown entry is printed")


QUERIES = ((), ("links=1",), ("links=1", "or", "uid=1"), ("(", "links=1", ")", "or", "not", "(", "uid=1", "or", "gid=1", ")"))


def run(env, case):
    if case[0] == "depth":
        run_depth(env, *case[1:])
    elif case[0] == "hide":
        run_hide(env, case[1], case[2])
    elif case[0] == "dev":
        run_dev(env, case[1], case[2])
    elif case[0] == "exclude":
        run_exclude(env, case[1])
    elif case[0] == "ignore":
        run_ignore(env, case[1])
    else:
        run_pair(env)


def number(env, name, n):
    t = env.text(name, n, "012345")
    v = 0
    for c in t:
        v = v * 10 + (ord(c) - 48)
    return t, v


def run_depth(env, forms, query, digits):
    words = []
    ranges = []
    for i, form in enumerate(forms):
        env.reach(form)
        if form == "single":
            t, v = number(env, f"n{i}", digits)
            ranges.append((v, v))
        elif form == "from":
            t, v = number(env, f"n{i}", digits)
            t = t + "-"
            ranges.append((v, None))
        elif form == "to":
            t, v = number(env, f"n{i}", digits)
            t = "-" + t
            ranges.append((0, v))
        elif form == "both":
            a, x = number(env, f"n{i}", digits)
            b, y = number(env, f"m{i}", 1)
            t = a + "-" + b
            if y < x:
                env.reach("reversed")
                x, y = y, x
            ranges.append((x, y))
        else:
            t = "-"
            ranges.append((0, None))
        words.append(t)
    arg = words[0]
    for t in words[1:]:
        arg = arg + "," + t
    links, uid, gid = [env.int(n, 0, 1) if query else 1 for n in ("links", "uid", "gid")]
    odd = dict(nlink=links, uid=uid, gid=gid)
    want = {}

    def tree(path, depth):
        kids = {}
        for name, kw in (("a", odd), ("d", dict(nlink=1, uid=0, gid=0))):
            p = path + name
            if query == 0:
                ok = True
            elif query == 1:
                ok = kw["nlink"] == 1
            elif query == 2:
                ok = (kw["nlink"] == 1) | (kw["uid"] == 1)
            else:
                ok = (kw["nlink"] == 1) | no((kw["uid"] == 1) | (kw["gid"] == 1))
            hit = False
            for x, y in ranges:
                hit = hit | ((x <= depth) & (True if y is None else depth <= y))
            want[p] = hit & ok
            kids[name] = D(tree(p + "/", depth + 1), **kw) if name == "d" and depth < 4 else F(b"", **kw)
        return kids

    world = World(D({"w": D(tree("", 0))}))
    if query:
        env.reach("query")
    spell = env.pick("spelling", ("-d", "--depth=")) if query == 0 and len(forms) == 1 else "-d"
    argv = ["-d", arg] if spell == "-d" else ["--depth=" + arg]
    # A word of its own that starts with a dash is a value all the same.
    out, scans = output(env, *argv, *QUERIES[query], world=world)
    compare(env, out, want, "depth ranges select the wrong entries")
    if all(y is not None for _, y in ranges):
        env.reach("bounded")
        for p in scans:
            depth = -1 if p == "." else p.count("/") - p.startswith("./")
            deep = False
            for _, y in ranges:
                deep = deep | (depth <= y)
            env.check(deep, "a directory below the largest depth is searched")
    else:
        env.reach("unbounded")


def run_hide(env, opt, start):
    names = [env.text(f"name{i}", n, ".a") for i, n in enumerate((1, 2, 2, 1, 2))]
    for n in names:
        for bad in (".", ".."):
            env.assume(no(n == bad))
    env.assume(no(names[1] == names[2]))
    a, b, c, d, e = names
    inner = {a + "": F(b""), b: D({c: D({d: F(b"")}), "z" + e: F(b"")}), "z.": F(b""), c: D({e: F(b"")}) if start == "." else F(b"")}
    dotted = start.rstrip("/")
    tree = inner if start == "." else {dotted: D(inner), "other": F(b"")}
    pre = "" if start == "." else dotted + "/"
    want = {}

    def visit(kids, path, alive):
        for name, node in kids:
            ok = alive & no(name[0] == ".")
            want[path + name] = ok
            if node.kind == "d":
                visit(node.children, path + name + "/", ok)

    visit(list(inner.items()), pre, True)
    argv = [opt] if start == "." else [opt, "-D", dotted]
    world = World(D({"w": D(tree)}))
    for p, ok in list(want.items()):
        if no(ok):
            env.reach("hidden")
    out, scans = output(env, *argv, world=world)
    compare(env, out, want, "hidden entries are shown or others left out")


def run_dev(env, opt, start):
    devs = [env.int(f"dev{i}", 1, 3) for i in range(6)]
    inner = {"f": F(b"", dev=devs[1]),
             "a": D({"b": D({"c": F(b"", dev=devs[4])}, dev=devs[3]), "x": L("/w", dev=devs[5])}, dev=devs[2])}
    pre = "" if start == "." else start.rstrip("/") + "/"
    top = devs[0]
    want = {pre + "f": devs[1] == top, pre + "a": devs[2] == top}
    want[pre + "a/b"] = want[pre + "a"] & (devs[3] == top)
    want[pre + "a/x"] = want[pre + "a"] & (devs[5] == top)
    want[pre + "a/b/c"] = want[pre + "a/b"] & (devs[4] == top)
    if opt == "-H":
        want = {p: True for p in want}
    for ok in want.values():
        if no(ok):
            env.reach("foreign")
    if start == ".":
        root = D({"w": D(inner, dev=top)})
        argv = [opt]
    elif start == "s/":
        root = D({"w": D({"s": D(inner, dev=top)})})
        argv = [opt, "s/"]
    else:
        env.reach("link start")
        root = D({"w": D({"l": L("/other", dev=env.int("linkdev", 1, 3))}), "other": D(inner, dev=top)})
        argv = [opt, start] if start == "l/" else [opt, "-D", start]
    out, scans = output(env, *argv, world=World(root))
    compare(env, out, want, "entries of other devices are shown or own ones left out")


def run_ignore(env, opt):
    """Every entry may be named by an ignore file."""
    flags = [env.bool(f"ignored{i}") for i in range(5)]
    names = ("f", "a", "b", "c", "g")
    text = ""
    for f, n in zip(flags, names):
        if f:
            text = text + n + "\n"
    kids = {".gitignore": F(text), "f": F(b""), "a": D({"b": D({"c": F(b"")}), "g": F(b"")})}
    f, a, b, c, g = [no(x) for x in flags]
    want = {".gitignore": True, "f": f, "a": a, "a/b": a & b, "a/b/c": a & b & c, "a/g": a & g}
    if text:
        env.reach("ignored")
    out, scans = output(env, opt, world=World(D({"w": D(kids)})))
    compare(env, out, want, "ignored entries are shown or others left out")


EXCLUDES = ("probe.str=x", "probe.num+=5", "uid=1")


def run_exclude(env, n):
    """Whatever one of the exclude tests is true for is left out; an attribute without a value is no reason."""
    env.reach("exclude")
    Probe.values = {}
    order = env.pick("order", {1: ((0,), (2,)), 2: ((0, 1), (1, 0), (0, 2)), 3: ((0, 1, 2), (2, 1, 0))}[n])
    drop = {}
    uids = {}
    for i, p in enumerate(("a", "a/b", "f")):
        vals = {}
        drop[p] = False
        uid = uids[p] = env.int(f"uid{i}", 0, 1)
        if 0 in order and env.flag(f"has{i}"):
            x = env.bool(f"str{i}")
            vals["str"] = "x" if x else "y"
            drop[p] = drop[p] | x
        if 1 in order and (i or env.flag(f"num{i}")):
            vals["num"] = env.int(f"n{i}", 0, 10)
            drop[p] = drop[p] | (vals["num"] >= 5)
        if 2 in order:
            drop[p] = drop[p] | (uid == 1)
        Probe.values[p] = vals
    kids = {"f": F(b"", uid=uids["f"]), "a": D({"b": D({"c": F(b"")}, uid=uids["a/b"]), "g": F(b"")}, uid=uids["a"])}
    argv = []
    for i in order:
        argv += ["-e", EXCLUDES[i]]
    a = no(drop["a"])
    b = a & no(drop["a/b"])
    want = {"f": no(drop["f"]), "a": a, "a/b": b, "a/b/c": b, "a/g": a}
    out, scans = output(env, *argv, world=World(D({"w": D(kids)})))
    compare(env, out, want, "excluded entries are shown or others left out")
    env.check(bool(a) or "a" not in scans, "an excluded directory is searched")


def run_pair(env):
    """The options together, with a test."""
    n = [env.text(f"name{i}", 1, ".a") + "n" for i in range(3)]
    dev = [env.int(f"dev{i}", 1, 2) for i in range(3)]
    t, v = number(env, "depth", 1)
    hide, xdev, deep, query = [env.flag(k) for k in ("hide", "xdev", "deep", "query")]
    uid = env.int("uid", 0, 1)
    kids = {n[0]: D({n[1]: D({n[2]: F(b"", dev=dev[2])}, dev=dev[1], uid=uid)}, dev=dev[0])}
    want = {}
    path = ""
    alive = True
    for i in range(3):
        path = path + n[i]
        if hide:
            alive = alive & no(n[i][0] == ".")
        if xdev:
            alive = alive & (dev[i] == 1)
        if deep:
            alive = alive & (i <= v)
        want[path] = alive & ((uid == 1) & (i == 1) if query else True)
        path = path + "/"
    argv = ["-H"] * hide + ["--mount"] * xdev + (["-d", "-" + t] if deep else []) + ["uid=1"] * query
    out, scans = output(env, *argv, world=World(D({"w": D(kids, dev=1)})))
    compare(env, out, want, "hide, one-file-system, depth and a test together select the wrong entries")
