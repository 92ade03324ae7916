"""C34: the Python interface."""

from libff.find import Find

from .common import *
from .c23 import equal, both

LABELS = ("query", "list", "no query", "sorted", "reversed", "options", "directories", "output", "missing", "invalid", "repeated",
          "unchanged", "defaults", "default output", "null", "empty")
BOUNDS = ("a tree with a directory, a hidden file, an ignore file, a symbolic link, another device and files of symbolic size and "
          "name; all subsets of up to 2 (thorough 3) options together, 24 queries as text and as list, every attribute "
          "list of 6, start directories in every combination; compared with --jsonl of the command line in the same world; two "
          "searches after one another")
BUDGET = {"quick": 250, "thorough": 3000}

# option of the command line, arguments of Find
OPTIONS = {
    "hide": (["-H"], {"hide": True}),
    "ignore": (["-I"], {"ignore": True}),
    "ignore2": (["-I", "--ignore-files", ".foo"], {"ignore": True, "ignore_files": [".foo"]}),
    "one": (["--one-file-system"], {"one_file_system": True}),
    "links": (["-L"], {"follow_symlinks": True}),
    "case": (["-c", "ignore"], {"case": "ignore"}),
    "case2": (["-c", "sensitive"], {"case": "sensitive"}),
    "exclude": (["-e", "name=d"], {"exclude": ["name=d"]}),
    "exclude2": (["-e", "size+=7", "-e", "type=l"], {"exclude": ["size+=7", "type=l"]}),
    "si": (["--si"], {"si": True}),
    "jobs": (["-j", "3"], {"jobs": 3}),
    "cache": (["--cache", "/tmp/c.db"], {"cache": "/tmp/c.db"}),
}
# as words of a list
QUERIES = (
    [], ["type=f"], ["size+=5"], ["size-4"], ["size=3"], ["name:A"], ["name=b c"], ["name~^[ab].*$"], ["path%*/d/*"],
    ["type=f", "size+1"], ["type=f", "or", "depth=1"], ["{{", "name=a", "or", "name=f", "}}", "size-9"], ["(", "type=l", ")"],
    ["not", "name=f"], ["hide=no"], ["depth=0", "not", "type=d"], ["probe.num+=3"], ["probe.str=x y"], ["NOT", "probe.str=a"], ["perm:u+x"], ["not", "name=a"],
    ["size+={}/w/f"], ["name=Ä"], ["name=\"q"],
)
BAD = (["type"], ["{{"], ["name=a", "or"], ["nosuch=1"], ["size=x"], ["name~("], [")"], ["or"], [""], ["type=f", ""], ["", "or", "type=f"])
OUTPUTS = (["path"], ["name", "size"], ["file.size", "size", "depth"], ["probe.num", "probe.str", "path"], ["probe.list:n", "hide"],
           ["type", "link", "target", "broken"])


def cases(tier):
    deep = tier == "thorough"
    for q in range(len(QUERIES)):
        yield ("query", q)
    for q in range(len(BAD)):
        yield ("bad", q)
    names = list(OPTIONS)
    for i, a in enumerate(names):
        yield ("options", (a,))
        for j, b in enumerate(names[:i]):
            yield ("options", (b, a))
            if deep:
                for c in names[:j]:
                    yield ("options", (c, b, a))
    for o in range(len(OUTPUTS)):
        for order in ("none", "name", "size", "size,name", "name:v", "probe.num"):
            yield ("output", o, order)
    for d in range(5):
        for absolute in (False, True):
            yield ("directories", d, absolute)
    for o in range(len(OUTPUTS)):
        for q in (1, 2, 16) if not deep else range(len(QUERIES)):
            yield ("again", o, q)
    for k in ("hide", "exclude", "ignore2", "links"):
        yield ("defaults", k)
    yield ("file",)
    yield ("invalid",)
    yield ("nothing",)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def tree(env, symbolic=True):
    """A world with all an option may concern."""
    size = env.int("size", 0, 9) if symbolic else 3
    name = env.text("name", 1, "aAbÄ") if symbolic else "a"
    Probe.values = {}
    num = env.int("num", 0, 9) if symbolic else 2
    for key in ("f", "d/g", name):
        if key == "d/g" or key == "f":
            both(key, {"num": num, "str": "x y", "list": ["p", "q"]} if key == "f" else {"str": "a"})
    root = D({
        "w": D({
            "f": F(b"", size=size, mode=0o100755),
            name: F(b"", size=4),
            "b c": F(b"", size=6),
            "\"q": F(b"", size=8),
            ".h": F(b"", size=3),
            ".foo": F(b"b c\n", size=1),
            ".gitignore": F(b"f\n", size=1),
            "l": L("d"),
            "d": D({"g": F(b"", size=2), ".foo": F(b"", size=1)}),
            "m": D({"n": F(b"", size=5, dev=2)}, dev=2),
        }),
        "v": D({"e": F(b"", size=1)}),
        "tmp": D({}),
    })
    return World(root)


def command(env, argv, output):
    """The objects the command line prints, or None if it fails."""
    world = tree(env)
    with active(world):
        status = programme("--jsonl", "-o", ",".join(output), *argv)
        out = world.stdout.text()
    if status:
        return None
    lines = out.split("\n")
    return [parse_json(line) for line in lines[:-1]]


def find(env, query, **kw):
    """What Find delivers, or None if it fails."""
    kw.setdefault("absolute_path", True)
    kw.setdefault("jobs", 1)
    kw.setdefault("cache", None)
    world = tree(env)
    copies = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    words = list(query) if isinstance(query, list) else query
    with active(world):
        try:
            r = list(Find(query, **kw))
        except (X.BaseError, ValueError):
            return None
    env.check(query == words, "the query is modified")
    for k, v in kw.items():
        env.check(v == copies[k], "an argument is modified")
    env.reach("unchanged")
    env.check(len(world.stdout.text()) == 0, "the search prints something")
    for row in r:
        for k in row:
            env.check(equal(row[k], getattr(row, k.replace(".", "_"))), "another value as attribute")
    return r


def compare(env, got, want, keys, ordered=True):
    env.check((got is None) == (want is None), "only one of the two fails")
    if got is None:
        env.reach("invalid")
        return
    if not want:
        env.reach("empty")
    env.check(len(got) == len(want), "another number of results")
    for g, w in zip(got, want):
        env.check(list(g) == list(keys), "wrong attributes")
        for k in keys:
            if w[k] is None:
                env.reach("null")
            env.check(equal(w[k], g[k]), "another value")


def text(words):
    """The words as one text."""
    return " ".join("'" + w.replace("'", "'\"'\"'") + "'" if any(c in w for c in " \"'(){}!*^$") else w for w in words)


def keys(output):
    return [o.split(":")[0] for o in output]


def run_query(env, q):
    words = list(QUERIES[q])
    how = env.pick("how", ("text", "list"))
    env.reach("query" if how == "text" else "list")
    out = ["path", "size"]
    want = command(env, words, out)
    if not words and env.flag("none"):
        env.reach("no query")
        got = find(env, None, output=out)
    else:
        got = find(env, text(words) if how == "text" else words, output=out)
    env.check(want is not None, "the command line fails")
    compare(env, got, want, out)


def run_bad(env, q):
    words = list(BAD[q])
    want = command(env, words, ["path"])
    env.check(want is None, "the command line does not fail")
    compare(env, find(env, words, output=["path"]), want, ["path"])


def run_options(env, names):
    env.reach("options")
    argv, kw = [], {}
    for n in names:
        argv += OPTIONS[n][0]
        for k, v in OPTIONS[n][1].items():
            kw[k] = kw[k] + v if k == "exclude" and k in kw else list(v) if isinstance(v, list) else v
    words = list(env.pick("query", ([], ["name=A"], ["name=a"])))
    out = ["path", "samedev"]
    want = command(env, argv + words, out)
    env.check(want is not None, "the command line fails")
    compare(env, find(env, words, output=out, **kw), want, out)


def run_output(env, o, order):
    env.reach("output")
    out = list(OUTPUTS[o])
    argv, kw = [], {}
    if order == "none" and env.flag("only reverse"):
        argv, kw = ["-R"], {"reverse": True}
    if order != "none":
        env.reach("sorted")
        kw["sort"] = order.split(",")
        argv = ["--sort=" + order]
        if env.flag("reverse"):
            env.reach("reversed")
            argv.append("-R")
            kw["reverse"] = True
    want = command(env, argv + ["type=f"], out)
    env.check(want is not None, "the command line fails")
    compare(env, find(env, "type=f", output=out, **kw), want, keys(out))


def run_directories(env, d, absolute):
    env.reach("directories")
    dirs = (["/w/d"], ["d"], ["d", "/v"], ["."], ["m", "d", "/v"])[d]
    argv = []
    for x in dirs:
        argv += ["-D", x]
    out = ["name", "depth", "relpath", "samedev"]
    want = command(env, argv, out)
    got = find(env, None, output=out + ["path", "root"], directories=list(dirs), absolute_path=absolute)
    env.check(want is not None, "the command line fails")
    env.check(got is not None, "the search fails")
    for g in got:
        root = g["root"]
        env.check(any(root == (os.path.join("/w", x).rstrip("/.") if absolute else x) for x in dirs), "wrong start directory")
        env.check(g["path"] == (g["relpath"] if root == "." else root + "/" + g["relpath"]), "wrong path")
    compare(env, [{k: g[k] for k in out} for g in got], want, out)


def run_again(env, o, q):
    """The same search twice."""
    env.reach("repeated")
    out, words = list(OUTPUTS[o]), list(QUERIES[q])
    first = find(env, words, output=out)
    again = find(env, words, output=out)
    env.check(first is not None, "the search fails")
    compare(env, again, first, keys(out))


def run_defaults(env, k):
    """What one search was given is nothing to the next."""
    env.reach("defaults")
    find(env, ["type=f"], output=["path"], **{k: list(v) if isinstance(v, list) else v for k, v in OPTIONS[k][1].items()})
    out = ["path"]
    compare(env, find(env, None, output=out), command(env, [], out), out)


def run_file(env):
    """All attributes of a file are the default."""
    env.reach("default output")
    if env.flag("again"):
        find(env, "name=f")
    got = find(env, "name=f")
    want = command(env, ["name=f"], ["file"])
    env.check(want is not None and len(want) == 1, "the command line fails")
    env.check(len(got) == 1, "another number of results")
    env.check(sorted(got[0]) == sorted(want[0]), "wrong attributes")
    for k, v in got[0].items():
        env.check(equal(want[0][k], v), "another value")


def run_invalid(env):
    env.reach("invalid")
    which = env.pick("which", range(8))
    kw = ({"case": "x"}, {"output": ["size:h"]}, {"output": ["perm:o", "path"]}, {"output": ["nosuch"]}, {"directories": ["/missing"]},
          {"directories": [".", "d"]}, {"sort": ["nosuch"]}, {"exclude": ["nosuch=1"]})[which]
    if which == 4:
        env.reach("missing")
    env.check(find(env, "type=f", **kw) is None, "an invalid argument is accepted")


def run_nothing(env):
    env.reach("empty")
    got = find(env, "depth=7", **({"sort": ["path"]} if env.flag("sorted") else {}))
    env.check(got == [], "results that are none")
