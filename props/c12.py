"""C12: inode attributes, of single entries and through a whole search."""

import grp
import pwd

from .common import *

LABELS = ("directory", "file", "symlink", "socket", "fifo", "char", "block", "other", "exec",
          "broken", "whole", "empty-dir", "full-dir", "unreadable-dir", "user", "nouser", "followed", "absolute link", "relative link", "odd link", "spelled", "others")
BOUNDS = ("every combination of file type and permission bits, every value of the other status fields "
          "(integers; times are multiples of 1/8 s, also negative); directories with 0-2 entries "
          "or unreadable; 9 kinds of symbolic links (relative, absolute, chains, loops, dangling, "
          "to directories), with and without following; links of every text of up to 4 (thorough 5) characters "
          "made of '/', '.' and two names, in the start directory and one and two levels below it, for four "
          "spellings of the start directory; empty, size, target and broken for ten other spellings")
ASSUME = ("a link whose text goes on after something that is no directory is not specified",)
BUDGET = {"quick": 60, "thorough": 600}

TYPES = {0o040000: "directory", 0o100000: "file", 0o120000: "symlink", 0o140000: "socket",
         0o010000: "fifo", 0o020000: "char", 0o060000: "block", 0: "other", 0o150000: "other"}

# name -> (link text, target, broken)
LINKS = {"file": ("d/x", "/w/d/x", False), "abs": ("/w/d", "/w/d", False),
         "up": ("../w/./d/x", "/w/d/x", False), "dangling": ("nowhere", "/w/nowhere", True),
         "chain": ("file", "/w/d/x", False), "chain2": ("dangling", "/w/nowhere", True),
         "through": ("abs/x", "/w/d/x", False), "below": ("d/none/x", "/w/d/none/x", True),
         "fileslash": ("d/x/y", "/w/d/x/y", True)}


def cases(tier):
    for fmt in TYPES:
        if fmt != 0o120000:
            yield ("status", fmt)
    for name in LINKS:
        yield ("link", name)
    yield ("loop",)
    for n in range(1, 6 if tier == "thorough" else 5):
        for place in PLACES:
            yield ("places", n, place)
    for n in range(4):
        yield ("empty", n)
    yield ("names",)
    yield ("spelled",)
    yield ("others",)
    for follow in (False, True):
        for fmt in TYPES:
            if fmt != 0o120000:
                yield ("search", follow, fmt)


def stat_of(env, fmt, perm):
    return Status(mode=perm | fmt, ino=env.int("ino", 0, 2 ** 64 - 1), dev=env.int("dev", 0, 2 ** 64 - 1),
                  nlink=env.int("nlink", 0, 2 ** 32), uid=env.int("uid", 0, 2 ** 32 - 1),
                  gid=env.int("gid", 0, 2 ** 32 - 1), size=env.int("size", 0, 2 ** 63 - 1),
                  atime=env.real("atime", 8, -2 ** 40, 2 ** 40), mtime=env.real("mtime", 8, -2 ** 40, 2 ** 40),
                  ctime=env.real("ctime", 8, -2 ** 40, 2 ** 40))


def verify(env, get, st, fmt, device):
    kind = TYPES[fmt]
    env.reach(kind)
    env.check(get("type") == kind, "type is wrong")
    env.check(get("mode") == st.st_mode, "mode is wrong")
    env.check(get("perm") == st.st_mode & 0o7777, "perm is wrong")
    env.check(get("links") == st.st_nlink, "links is wrong")
    env.check(get("uid") == st.st_uid, "uid is wrong")
    env.check(get("gid") == st.st_gid, "gid is wrong")
    env.check(get("device") == st.st_dev, "device is wrong")
    env.check(get("inode") == st.st_ino, "inode is wrong")
    env.check(get("size") == (st.st_size if kind == "file" else 0), "size is wrong")
    for a in ("mtime", "ctime", "atime"):
        t = getattr(st, "st_" + a)
        v = get(a)
        env.check(isinstance(v, int), a + " is no integer")
        # truncated: same sign, less than one second off
        env.check(((t >= 0) & (v <= t) & (t < v + 1)) | ((t < 0) & (v >= t) & (t > v - 1)),
                  a + " is wrong")
    env.check(get("time") == get("mtime"), "time is not mtime")
    env.check(get("samedev") == (st.st_dev == device), "samedev is wrong")
    x = no((st.st_mode & 0o111) == 0)
    if kind in ("directory", "symlink"):
        x = False
    env.check(get("exec") == x, "exec is wrong")
    if bool(x):
        env.reach("exec")
    if kind == "file":
        env.check(get("empty") == (st.st_size == 0), "empty is wrong")
    elif kind != "directory":
        env.check(get("empty") == False, "empty is wrong")      # noqa: E712
    if kind != "symlink":
        env.check(get("link") is MISSING, "link of something that is no symbolic link")
        env.check(get("target") is MISSING, "target of something that is no symbolic link")
        env.check(get("broken") == False, "broken of something that is no symbolic link")  # noqa: E712


# where the link is -> its directory
PLACES = {"l": "/w", "d/l": "/w/d", "d/d/l": "/w/d/d"}


def run_places(env, n, place):
    """What a link points to depends on its text and the directory it is in."""
    from libff.find import Find
    text = env.text("text", n, ["/.da"] * n)
    tree = D({"w": D({"d": D({"d": D({}), "a": F(b"")}), "a": F(b"")}), "a": F(b""), "d": D({"a": F(b"")})})
    there = {"/": "d", "/w": "d", "/w/d": "d", "/w/d/d": "d", "/w/d/a": "f", "/w/a": "f", "/a": "f", "/d": "d", "/d/a": "f"}
    parent = dict(tree.children)["w"]
    for c in place.split("/")[:-1]:
        parent = dict(parent.children)[c]
    parent.children.append(("l", L(text)))
    # the components of the text
    parts, cur = [], ""
    for c in text:
        if c == "/":
            parts.append(cur)
            cur = ""
        else:
            cur += "." if c == "." else "d" if c == "d" else "a"
    parts.append(cur)
    at = [] if text[0] == "/" else PLACES[place].split("/")[1:]
    env.reach("absolute link" if text[0] == "/" else "relative link")
    for i, c in enumerate(parts):
        if (i or text[0] != "/") and there.get("/" + "/".join(at)) != "d":
            # whatever follows, it leads nowhere
            env.reach("odd link")
            return
        if c == "..":
            at = at[:-1]
        elif c not in ("", "."):
            at = at + [c]
    target = "/" + "/".join(at)
    start = env.pick("start", (".", "/w", "../w", "d" if place != "l" else "../w/"))
    with active(World(tree)):
        got = [r for r in Find(["name=l"], directories=[start], output=["path", "link", "target", "broken"], jobs=1, cache=None)]
    env.check(len(got) == 1, "the link is not found")
    r = got[0]
    env.observe([r["path"], r["target"], r["broken"]])
    env.check(same(r["link"], text), "link is wrong")
    env.check(same(r["target"], target), "target is wrong")
    env.check(r["broken"] == (target not in there), "broken is wrong")


def run_spelled(env):
    """However the start directory is written, the attributes are those of what is there."""
    env.reach("spelled")
    n = env.int("n", 0, 2).__index__()
    inside = {c: F(b"") for c in "ab"[:n]}
    size = env.int("size", 1, 9)
    right = lambda: {"k": D({"d": D(dict(inside)), "f": F(b"", size=size), "l": L("d"), "o": L("gone")})}
    wrong = lambda: {"k": D({"d": D({} if inside else {"c": F(b"")}), "f": F(b"", size=size + 1), "l": L("e"), "o": L("f"),
                             "gone": F(b"")})}
    world, root, top, make = spelled(env, right, wrong)
    with active(world):
        ctx = context()
        got = attr(ctx, make("k/d"), "empty")
        env.check(got == (n == 0), "empty is wrong for a directory")
        env.check(attr(ctx, make("k/f"), "size") == size, "size is wrong")
        link, gone = make("k/l"), make("k/o")
        real = ("" if root == "/" else "/w/s") + "/k/"
        env.check(attr(ctx, link, "target") == real + "d", "target is wrong")
        env.check(attr(ctx, link, "broken") is False, "broken is wrong")
        env.check(attr(ctx, gone, "target") == real + "gone", "target is wrong")
        env.check(attr(ctx, gone, "broken") is True, "broken is wrong")


def run_others(env):
    """The attributes are those of this entry."""
    env.reach("others")
    ids = env.pick("numbers", ((0, 1), (1, 0), (1000, 1001)))
    world, make = neighbours({"f": F(b"x", uid=ids[0], gid=ids[1], mtime=5), "l": L("f"), "d": D({}), "e": F(b"")},
                             {"f": F(b"xy", uid=ids[1], gid=ids[0], mode=0o100755, nlink=2, mtime=6), "l": L("gone"), "d": D({"x": F(b"")}),
                              "e": F(b"", dev=9)})
    dict(dict(dict(world.root.children)["w"].children)["two"].children)["e"].st.st_dev = 9

    world.users, world.groups = {0: "root", 1000: "me"}, {0: "wheel", 1: "bin", 1000: "us"}

    def names(uid, gid):
        out = {}
        for key, get, what in (("user", pwd.getpwuid, uid), ("group", grp.getgrgid, gid)):
            try:
                out[key] = get(what)[0]
            except KeyError:
                out[key] = ""
        return out
    with active(world):
        table = {
            "one/f": {"size": 1, "uid": ids[0], "gid": ids[1], "exec": False, "links": 1, "time": 5, "samedev": True, "device": 1,
                      "link": MISSING, **names(*ids)},
            "two/f": {"size": 2, "uid": ids[1], "gid": ids[0], "exec": True, "links": 2, "time": 6, "samedev": True, "device": 2,
                      **names(*ids[::-1])},
            "one/l": {"type": "symlink", "link": "f", "target": "/w/one/f", "broken": False, "path": "one/l"},
            "two/l": {"type": "symlink", "link": "gone", "target": "/w/two/gone", "broken": True, "path": "two/l"},
            "one/d": {"empty": True, "type": "directory", "depth": 0}, "two/d": {"empty": False, "inode": 52, "device": 2},
            "one/e": {"empty": True, "samedev": True}, "two/e": {"samedev": False, "device": 9, "root": "two"}}
        visit(env, make, table)


def same(a, b):
    return len(a) == len(b) and a == b


def run(env, case):
    what = case[0]
    if what == "spelled":
        return run_spelled(env)
    if what == "others":
        return run_others(env)
    if what == "places":
        return run_places(env, *case[1:])
    if what == "status":
        st = stat_of(env, case[1], env.bits("perm", 12))
        device = env.int("start", 0, 2 ** 64 - 1)
        with active(World()):
            ctx = context()
            e = entry("f", st, device=device)
            verify(env, lambda a: attr(ctx, e, a), st, case[1], device)
        return
    if what in ("link", "loop"):
        name = case[1] if what == "link" else "loop"
        st = stat_of(env, 0o120000, 0o777)
        tree = {n: L(t[0]) for n, t in LINKS.items()}
        tree.update({"d": D({"x": F(b"")}), "loop": L("loop2"), "loop2": L("loop")})
        with active(World(D({"w": D(tree)}))):
            ctx = context()
            e = entry(name, st, device=1)
            verify(env, lambda a: attr(ctx, e, a), st, 0o120000, 1)
            if what == "loop":
                env.reach("broken")
                env.check(attr(ctx, e, "link") == "loop2", "link is wrong")
                env.check(attr(ctx, e, "broken") is True, "a link to itself is not broken")
                return
            link, target, broken = LINKS[name]
            if broken:
                env.reach("broken")
            else:
                env.reach("whole")
            env.check(attr(ctx, e, "link") == link, "link is wrong")
            env.check(attr(ctx, e, "target") == target, "target is wrong")
            env.check(attr(ctx, e, "broken") is broken, "broken is wrong")
        return
    if what == "empty":
        n = case[1]
        tree = D({c: F(b"") for c in "ab"[:n]}) if n < 3 else D({}, errors={"scandir": 13})
        with active(World(D({"w": D({"d": tree})}))):
            got = attr(context(), entry("d", Status(mode=0o40755)), "empty")
        env.reach("unreadable-dir" if n == 3 else "full-dir" if n else "empty-dir")
        env.check(got == (n == 0), "empty is wrong for a directory")
        return
    if what == "names":
        uid = env.pick("uid", (0, 5, 2 ** 32 - 1))
        gid = env.pick("gid", (0, 5, 9))
        w = World()
        w.users = {0: "root", 5: "a b"}
        w.groups = {0: "wheel", 9: "g"}
        with active(w):
            ctx = context()
            es = [entry("f", Status(uid=uid, gid=gid)) for _ in range(2)]
            for e in es:
                env.check(attr(ctx, e, "user") == w.users.get(uid, ""), "user is wrong")
                env.check(attr(ctx, e, "group") == w.groups.get(gid, ""), "group is wrong")
        env.reach("user" if uid in w.users else "nouser")
        return
    from libff.find import Find
    follow = case[1]
    fmt = case[2]
    perm = env.bits("perm", 12)
    st = stat_of(env, fmt, perm)
    start = env.int("start", 0, 2 ** 64 - 1)
    node = D({}) if fmt == 0o040000 else F(b"")
    node.st = st
    link = L("f")
    root = D({"f": node, "l": link}, dev=start)
    with active(World(D({"w": root}))):
        found = list(Find([], output=list(ATTRS), follow_symlinks=follow, jobs=1, cache=None))
    env.check(len(found) == 2, "wrong number of results")
    for f in found:
        def get(a):
            v = f[a]
            return MISSING if v is None else v
        if f["path"] == "l" and not follow:
            env.check(f["type"] == "symlink", "type of a symbolic link is wrong")
            env.check(f["link"] == "f", "link is wrong")
        else:
            if f["path"] == "l":
                env.reach("followed")
            verify(env, get, st, fmt, start)


ATTRS = ("path", "type", "mode", "perm", "links", "uid", "gid", "device", "inode", "size", "time",
         "mtime", "ctime", "atime", "samedev", "exec", "empty", "link", "target", "broken")
