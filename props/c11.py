"""C11: path attributes, of single entries and through a whole search."""

from libff.find import Find

from .common import *

LABELS = ("ext", "no-ext", "dots", "hidden", "hide", "deep", "search", "absolute")
BOUNDS = ("entries at depth 0-2 (thorough 3) whose components have 1-3 (thorough 5) arbitrary characters "
          "out of letters, dots and special characters, below 9 start directories (relative, "
          "absolute, the root, with dots); a search over a tree with symbolic names three levels "
          "deep, with and without absolute paths")
ASSUME = ("start directories have no trailing slash (except /)",)
BUDGET = {"quick": 60, "thorough": 1500}

CHARS = "ab.- \n\xe4\\"
ROOTS = {".": "/w", "r": "/w/r", "/r": "/r", "/": "/", "../r": "/r", "a.b/.c": "/w/a.b/.c",
         "./r": "/w/r", "..": "/", ".r.x": "/w/.r.x"}


def cases(tier):
    full = tier == "thorough"
    top = 5 if full else 3
    for root in ROOTS:
        for n in range(1, top + 1):
            yield ("entry", root, (n,))
        for n in range(1, top):
            yield ("entry", root, (1, n))
            yield ("entry", root, (n, 2))
        yield ("entry", root, (1, 1, 2))
        if full:
            yield ("entry", root, (2, 2, 2))
            yield ("entry", root, (1, 1, 1, 2))
    for root in (".", "r", "/w/r", "../w/r"):
        for a in (False, True):
            yield ("search", root, a)


def special(t):
    r = t == "."
    return r | (t == "..") if len(t) == 2 else r


def names(env, lens, dom=CHARS):
    r = []
    for i, n in enumerate(lens):
        t = env.text(f"name{i}", n, dom)
        env.assume(no(special(t)))
        r.append(t)
    return r


def suffix(name):
    """Where the extension of a name begins (len(name) without one), as the standard library says:
    at the last dot that has a character other than a dot before it."""
    lead = 0
    while lead < len(name) and name[lead] == ".":
        lead += 1
    for i in range(len(name) - 1, lead, -1):
        if name[i] == ".":
            return i
    return len(name)


def verify(env, get, root, comps):
    rel = comps[0]
    for c in comps[1:]:
        rel = rel + "/" + c
    name = comps[-1]
    path = rel if root == "." else "/" + rel if root == "/" else root + "/" + rel
    directory = path[:len(path) - len(name) - 1] if len(path) > len(name) else ""
    if len(path) == len(name) + 1:
        directory = "/"
    cut = suffix(name)
    env.reach("no-ext" if cut == len(name) else "ext")
    stem = path[:len(path) - len(name) + cut]
    dotted = name[0] == "."
    env.reach("hide" if bool(dotted) else "dots")
    anywhere = dotted
    for c in (root.split("/") if root != "." else []) + list(comps):
        if len(c):
            anywhere = anywhere | (c[0] == ".")
    env.reach("hidden" if bool(anywhere) else "dots")
    if len(comps) > 1:
        env.reach("deep")
    env.check(get("path") == path, "path is not the start directory joined with relpath")
    env.check(get("root") == root, "root is not the start directory")
    env.check(get("relpath") == rel, "relpath is wrong")
    env.check(get("dir") == directory, "dir is wrong")
    env.check(get("name") == name, "name is wrong")
    env.check(get("ext") == name[cut + 1:], "ext is wrong")
    env.check(get("pathx") == stem, "pathx is wrong")
    env.check(get("namex") == name[:cut], "namex is wrong")
    env.check(get("depth") == len(comps) - 1, "depth is wrong")
    env.check(get("hide") == dotted, "hide is wrong")
    env.check(get("hidden") == anywhere, "hidden is wrong")


def run(env, case):
    what, root, arg = case
    if what == "entry":
        comps = names(env, arg)
        rel = comps[0]
        for c in comps[1:]:
            rel = rel + "/" + c
        with active(World()):
            ctx = context()
            e = entry(rel, root=root, absroot=ROOTS[root])
            verify(env, lambda a: attr(ctx, e, a), root, comps)
        return
    env.reach("search")
    comps = names(env, (1, 1, 2), "ab.-\n")
    tree = {comps[0]: D({comps[1]: D({comps[2]: F(b"")})})}
    with active(World(D({"w": D({"r": D(tree), **tree})}))):
        found = list(Find([], directories=[root], output=list(ATTRS), absolute_path=arg, jobs=1,
                          cache=None))
    if root == ".":
        found = [f for f in found if not bool(f["path"] == ("/w/r" if arg else "r"))
                 and not starts(f["path"], "/w/r/" if arg else "r/")]
    if arg:
        env.reach("absolute")
        root = {".": "/w"}.get(root, "/w/r")
    env.check(len(found) == 3, "wrong number of results")
    for i, f in enumerate(found):
        verify(env, lambda a: f[a], root, comps[:i + 1])


ATTRS = ("path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "depth", "hide", "hidden")


def starts(text, prefix):
    return bool(text[:len(prefix)] == prefix)
