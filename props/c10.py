"""C10: ignore files, through the whole programme."""

from . import c09
from .common import *

LABELS = ("ignored", "kept", "negated", "inner", "outer", "parent", "walk", "directory", "comment", "sibling",
          "blank", "undecodable")
BOUNDS = ("ignore files with up to 3 (thorough 4) lines chosen from 16 patterns (negated, anchored, "
          "directory-only, globs), comments and blank lines, in up to 3 nested directories (the "
          "start directory, a directory below it, a parent of it) or in up to 3 neighbouring ones; entries with names of 1-2 "
          "arbitrary characters, directories or not, at three levels; start directory given in 5 "
          "spellings; position of the ignore file in the directory listing; one ignore file per "
          "directory; attributes ignored and path, and -I")
ASSUME = ("the order among several ignore files of one directory and leading or trailing white "
          "space of a line are not specified", "glob semantics: see C09",
          "parents of the start directory are consulted with -I only")
BUDGET = {"quick": 110, "thorough": 2400}

LINES = ("a", "!a", "a/", "/a", "*", "!*b", "d/*", "!d/a", "?b", "**/a", "\\!a", "\\#a",
         "[ab]", "*a/", "!/a", "d/")
MEANINGLESS = ("", "# a", "#*", "  ")
NAME = "ab!#.\n"


def cases(tier):
    full = tier == "thorough"
    for n in range(0, 4 if full else 3):
        for m in range(0, 3):
            if n + m and n + m < (5 if full else 4):
                yield ("attr", n, m)
    for n in range(1, 3):
        for first in MEANINGLESS:
            yield ("noise", n, first)
    yield ("group",)
    for start in STARTS:
        for n in range(1, 4 if full else 3 if start in (".", "s/") else 2):
            yield ("walk", start, n)
    yield ("bytes",)
    for where in range(3):
        for line in ("?b", "!ab", "d/", "/ab", "ab"):
            yield ("siblings", where, line)


STARTS = {".": "", "s": "s/", "./s": "./s/", "/w/s": "/w/s/", "s/": "s/", "../w/s": "../w/s/"}


def deciding(files, path, name, is_dir):
    """-> (ignored, index of the file holding the deciding pattern) as a list of alternatives
    (condition, file index)"""
    ignored = False
    where = -1
    for i, (base, lines) in enumerate(files):
        for line in lines:
            if line.strip() == "" or line[0] == "#":
                continue
            inv, anchored, directory, its = c09.parse(line)
            if directory and not is_dir:
                continue
            text = path[len(base):] if anchored else name
            hit = c09.matches(list(its), text)
            if bool(hit):
                ignored = not inv
                where = i
    return ignored, where


def run(env, case):
    what = case[0]
    if what == "bytes":
        return undecodable(env)
    if what == "siblings":
        return siblings(env, *case[1:])
    if what == "walk":
        return walk(env, *case[1:])
    full = env.thorough
    size = case[1] + case[2] if what == "attr" else 1
    pool = LINES if full or size < 2 else LINES[:10] if size < 3 else LINES[:6]
    name = env.text("name", env.pick("len", (1, 2) if full or size < 2 else (2,) if size == 2 else (1,)), NAME)
    env.assume(no(c09.special(name)))
    is_dir = env.flag("dir")
    level = env.pick("level", (0, 1, 2))
    prefix = ("", "d/", "d/a/")[level]
    if what == "group":
        outer = [env.pick("l0", ("a", "*")), env.pick("l1", ("!a", "!?b")), env.pick("l2", ("a/", "[ab]")),
                 "!*a"]
        inner = []
    elif what == "noise":
        outer = [env.pick(f"x{i}", LINES[:7]) for i in range(case[1])]
        outer.insert(env.pick("at", range(case[1] + 1)), case[2])
        inner = []
        env.reach("comment" if case[2].startswith("#") else "blank")
    else:
        outer = [env.pick(f"o{i}", pool) for i in range(case[1])]
        inner = [env.pick(f"i{i}", pool) for i in range(case[2])] if level else []
    files = [("/w/", outer), ("/w/d/", inner)]
    tree = {".gitignore": F("\n".join(outer).encode() + (b"\n" if size % 2 else b"")),
            "d": D({".ffignore": F("\n".join(inner).encode())})}
    ignores = (["/w/.gitignore"] if outer else []) + (["/w/d/.ffignore"] if level and inner else [])
    with active(World(D({"w": D(tree)}))):
        ctx = context()
        e = entry(prefix + name, Status(mode=0o40755 if is_dir else 0o100644), ignore_paths=ignores)
        got = attr(ctx, e, "ignored")
        path = attr(ctx, e, "ignore.path")
        if size % 2:
            got = attr(ctx, entry(prefix + name, e.status, ignore_paths=ignores), "ignored")
    want, where = deciding(files, "/w/" + prefix + name, name, is_dir)
    if is_dir:
        env.reach("directory")
    if where >= 0:
        env.reach(("outer", "inner")[where])
        if not want:
            env.reach("negated")
    env.reach("ignored" if want else "kept")
    env.observe(got)
    env.check(got == want, "the ignored attribute is wrong")
    env.check(path == (("/w/.gitignore", "/w/d/.ffignore")[where] if want else ""),
              "the reported ignore file is wrong")


def walk(env, start, n):
    """-I with the ignore file above, in, and below the start directory."""
    env.reach("walk")
    name = env.text("name", 2, NAME)
    env.assume(no(c09.special(name)))
    first = env.flag("first") if n == 1 or env.thorough else True
    where = env.pick("where", ("/", "/w/", "/w/s/", "/w/s/d/")[n > 1 and not env.thorough:] if start != "." else ("/", "/w/"))
    lines = [env.pick(f"l{i}", ("?b", "!ab", "s/*", "/d/ab", "d/", "*/d/?b")[::1 if n == 1 or env.thorough else 2])
             for i in range(n)]
    base = "/w/" if start == "." else "/w/s/"
    parents = where.startswith(base) or env.flag("parents")
    node = F("\n".join(lines).encode() + b"\n")
    kind = env.flag("isdir")
    files = [(where, lines)]

    def listing(here, rest):
        ign = {".gitignore": node} if where == here else {}
        return D({**ign, **rest} if first else {**rest, **ign})
    tree = {name: D({}) if kind else F(b""), "xx": F(b"")}
    if start == ".":
        root = listing("/", {"w": listing("/w/", {"s": D({"d": D(tree)}), "other": F(b"")})})
        top = [("s", True), ("s/d", True), ("s/d/" + name, kind), ("s/d/xx", False), ("other", False)]
    else:
        root = listing("/", {"w": listing("/w/", {"s": listing("/w/s/", {
            "d": listing("/w/s/d/", tree)}), "other": F(b"")})})
        top = [("d", True), ("d/" + name, kind), ("d/xx", False)]
    with active(World(root)):
        argv = ["-I", "--print0"] + ([] if parents else ["--no-parent-ignore"])
        status = programme(*argv, *(["s/"] if start == "s/" else ["-D", start]))
        got = printed("\0")
    inside = where.startswith(base)
    if not inside:
        env.reach("parent")
        if not parents:
            files = []
    dropped = []
    want = []
    for rel, d in top:
        if any(rel[:len(x) + 1] == x + "/" for x in dropped):
            continue
        path = base + rel
        # an ignore file counts for entries below its directory only
        use = [f for f in files if path[:len(f[0])] == f[0]]
        ign, _ = deciding(use, path, rel.rsplit("/", 1)[-1] if "/" in rel[:4] else rel, d)
        if ign:
            env.reach("ignored")
            if d:
                dropped.append(rel)
            continue
        env.reach("kept")
        want.append(STARTS[start] + rel)
    env.check(status == 0, "-I fails")
    got = [g for g in got if not g.endswith(".gitignore")]
    env.check(len(got) == len(want), "-I leaves out the wrong number of entries")
    for w in want:
        r = False
        for g in got:
            if len(g) == len(w):
                r = r | (g == w)
        env.check(r, "-I leaves out an entry that is not ignored")


def siblings(env, where, line):
    """Ignore files of neighbouring directories, and one above them."""
    env.reach("sibling")
    name = env.text("name", 2, "ab")
    upper = env.pick("upper", (None, "ab", "*b"))
    files, tree = [], {}
    if upper:
        files.append(("/w/", [upper]))
        tree[".gitignore"] = F(upper.encode())
    second = env.pick("second", range(3))
    for i, d in enumerate("abc"):
        node = {name: F(b""), "d": D({name: F(b"")})}
        if i == where or i == second:
            text = line if i == where else "bb"
            files.append((f"/w/{d}/", [text]))
            ign = F(text.encode() + b"\n")
            node = {".gitignore": ign, **node} if env.flag("first") else {**node, ".gitignore": ign}
        tree[d] = D(node)
    with active(World(D({"w": D(tree)}))):
        status = programme("-I", "--print0", "--no-parent-ignore", "-j", str(env.pick("jobs", (1, 2))), "-e", "name=.gitignore")
        got = printed("\0")
    want = []
    for d in "abc":
        for rel, is_dir in ((d, True), (d + "/" + name, False), (d + "/d", True), (d + "/d/" + name, False)):
            path = "/w/" + rel
            use = [f for f in files if path[:len(f[0])] == f[0]]
            last = {1: d, 4: name, 3: "d", 6: name}[len(rel)]
            if not deciding(use, path, last, is_dir)[0]:
                want.append(rel)
            elif is_dir:
                env.reach("ignored")
                break
    env.check(status == 0, "-I fails")
    env.check(len(got) == len(want), "-I leaves out the wrong number of entries")
    for w in want:
        r = False
        for g in got:
            if len(g) == len(w):
                r = r | (g == w)
        env.check(r, "-I leaves out an entry that is not ignored")


def undecodable(env):
    env.reach("undecodable")
    tree = {".gitignore": F(b"\xff\xfe\na\n"), "a": F(b""), "b": F(b""), "\udcff\udcfe": F(b"")}
    with active(World(D({"w": D(tree)}))):
        matcher = Matcher(context(), ["ignored=yes"])
        got = [matcher.test(entry(n, ignore_paths=["/w/.gitignore"])) for n in list(tree)[1:]]
    env.check(got == [True, False, True], "an ignore file that is no valid UTF-8")
