"""C33: reference tests, through the query parser and the matcher."""

from .common import *

LABELS = ("number", "text", "plugin", "refused", "missing", "kinds", "other plugin")
BOUNDS = ("13 spellings of the reference path (relative, with dots, absolute, trailing slash, inside "
          "and outside of the search directories, missing, with blanks) x 4 sets of search directories x 9 "
          "attributes x operators; all values of the status fields of both files up to 10^12; text "
          "values of up to 2 characters in either case; all pairs of attributes of 10 types")
ASSUME = ("depth, samedev and ignored of a reference depend on the search and are not specified",)
BUDGET = {"quick": 100, "thorough": 900}

PATHS = {"a": "a", "./a": "a", "/w/a": "a", "sub/b": "b", "../o/c": "c", "/o/c": "c", "/o/": "o",
         "sub": "sub", "sub/": "sub", "/o": "o", "nope": None, "sub/../a": "a",
         "e ": "e ", "./ e": " e"}
SEARCH = ((".",), ("/o",), ("sub",), ("/nix", "sub"))
NUM = ("size", "mtime", "uid", "links", "inode")
OPS = ("=", "+=", "-=", "+", "-", ">", "<=")
KINDS = {"num": "n", "num2": "n", "len": "n", "dur": "n", "when": "n", "str": "s", "loc": "s",
         "bits": "m", "flag": "b", "kind": "t", "list": "l"}


def cases(tier):
    for i in range(len(SEARCH)):
        for p in PATHS:
            yield ("number", i, p)
            yield ("text", i, p)
    for p in ("a", "/o/c", "nope"):
        yield ("plugin", 0, p)
    for a in KINDS:
        yield ("kinds", a)
    for p in ("a", "/o/c", "nope"):
        yield ("other plugin", 0, p)


def compare(op, a, b):
    if op == "=":
        return a == b
    if op == "+=":
        return a >= b
    if op in ("-=", "<="):
        return a <= b
    if op in ("+", ">"):
        return a > b
    return a < b


def run(env, case):
    what = case[0]
    rv = env.int("ref", 0, 10 ** 12)
    v = env.int("v", 0, 10 ** 12)
    ref = dict(size=rv, mtime=rv, uid=rv, nlink=rv, ino=rv)
    other = dict(size=0, mtime=10 ** 13, uid=10 ** 13, nlink=10 ** 13, ino=10 ** 13)

    def st(name, kind):
        target = PATHS[case[2]] if what != "kinds" else "a"
        d = dict(ref if name == target else other)
        return Status(mode=W.FMT[kind] | 0o644, **d)
    a, b, c, e1, e2 = F(b""), F(b""), F(b""), F(b""), F(b"")
    sub, o = D({"b": b}), D({"c": c})
    for node, name, kind in ((a, "a", "f"), (b, "b", "f"), (c, "c", "f"), (e1, "e ", "f"), (e2, " e", "f"), (sub, "sub", "d"),
                             (o, "o", "d")):
        node.st = st(name, kind)
    world = World(D({"w": D({"a": a, "sub": sub, "f": F(b""), "e ": e1, " e": e2}), "o": o, "nix": D({})}))
    with active(world):
        if what == "kinds":
            return kinds(env, case[1])
        _, i, path = case
        ctx = context()
        ctx.args.directories = list(SEARCH[i])
        target = PATHS[path]
        if what == "number":
            attr = env.pick("attr", NUM)
            src = env.pick("ref attr", ("", attr, "file." + attr, "mtime"))
            op = env.pick("op", OPS)
            token = attr + op + "{" + src + "}" + path
            key = {"links": "nlink", "inode": "ino"}.get(attr, attr)
            e = entry("f", Status(**{key: v}))
            want = rv
            if "size" in (src or attr) and target in ("sub", "o"):
                want = 0
            result = compare(op, v, want)
            env.reach("number")
        elif what == "other plugin":
            # nothing else asks for the plugin of the reference
            env.reach("other plugin")
            op = env.pick("op", OPS)
            token = "links" + op + "{probe.num}" + path
            e = entry("f", Status(nlink=v))
            Probe.values[path] = {"num": rv}
            result = compare(op, v, rv)
        elif what == "text":
            name = env.text("name", len(target or "xx"), "abcosuABCOSU" if " " not in path else "abeE ")
            src = env.pick("ref attr", ("", "name", "file.name"))
            token = "name={" + src + "}" + path
            e = entry(name)
            result = len(name) == len(target or "")
            for x, y in zip(name, target or ""):
                result = result & (fold(x) == ord(y))
            env.reach("text")
        else:
            src = env.pick("ref attr", ("probe.num", "probe.num2", "probe.str"))
            token = "probe.num={" + src + "}" + path
            e = probe(num=v)
            full = path
            if env.flag("has"):
                Probe.values[full] = {"num": rv, "num2": rv + 1, "str": "x"}
            else:
                Probe.values[full] = {"str": "x"}
                env.reach("missing")
                target = None
            result = v == (rv if src == "probe.num" else rv + 1)
            if src == "probe.str":
                target = None
            env.reach("plugin")
            Probe.values["f"] = {"num": v}
        check(env, ctx, token, e, target is not None, result)


def check(env, ctx, token, e, valid, result):
    try:
        matcher = Matcher(ctx, [token])
    except (X.UsageError, X.ExpressionError, X.BadAttributeError):
        env.reach("refused")
        env.check(not valid, "a valid reference is refused")
        return
    env.check(valid, "an invalid reference is accepted")
    if valid:
        got = matcher.test(e)
        env.observe(got)
        env.check(got == result, "the reference test compares wrongly")


def kinds(env, attr):
    """Only attributes of the same kind can be compared."""
    env.reach("kinds")
    src = env.pick("src", tuple(KINDS))
    ctx = context()
    values = {"num": 1, "num2": 2, "len": 3, "dur": 4, "when": 5, "str": "x", "loc": "y",
              "bits": 0o644, "flag": True, "kind": "file", "list": ["x"]}
    Probe.values["a"] = values
    mine = env.flag("equal")
    valid = KINDS[attr] == KINDS[src] and KINDS[src] != "l"
    have = values[src] if mine else {"n": 77, "s": "q", "m": 0, "b": False, "t": "directory",
                                     "l": []}[KINDS[attr]]
    e = probe(**{attr: have})
    check(env, ctx, "probe." + attr + "={probe." + src + "}a", e, valid, mine)
