"""C13: mount attributes."""

from libff import entry as entry_module

from .common import *

LABELS = ("mountpoint", "below", "prefix-only", "root", "nested", "no-root", "escape", "pseudo",
          "real", "undecodable", "literal", "spelled", "others")
BOUNDS = ("mount tables with 1-3 mounts besides (or instead of) the root file system, at mountpoints of "
          "1-2 (thorough 3) components of 1-2 arbitrary characters, in any order, with the kernel's octal escapes; "
          "entries at any absolute path of 1-3 components; mountpoints whose names look like the escapes of the table; file system types; "
          "ten spellings of the start directory")
ASSUME = ("no two mounts on the same mountpoint", "a trailing slash of mpath is not significant")
BUDGET = {"quick": 80, "thorough": 1500}

CHARS = "ab \\\t\xa0\x0b\r0"
PSEUDO = ("binfmt_misc", "bpf", "cgroup2", "configfs", "debugfs", "devpts", "devtmpfs", "efivarfs",
          "hugetlbfs", "mqueue", "proc", "pstore", "securityfs", "sysfs", "tmpfs", "tracefs")


def cases(tier):
    full = tier == "thorough"
    shapes = [(1,), (2,), (1, 1), (1, 2)] + ([(2, 1), (1, 1, 1)] if full else [])
    entries = [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)]
    for root in (True, False):
        for e in entries:
            for a in shapes:
                yield ("table", root, (a,), e)
                for b in shapes:
                    if full or len(e) < 3 or a == (1, 1):
                        yield ("table", root, (a, b), e)
            if full:
                yield ("table", root, ((1,), (1, 1), (1, 1, 1)), e)
    yield ("entry-is-root",)
    yield ("literal",)
    yield ("type",)
    yield ("spelled",)
    yield ("others",)
    yield ("bytes",)


def escape(text):
    out = ""
    for c in text:
        for x in " \t\n\\":
            if c == x:
                out = out + f"\\{ord(x):03o}"
                break
        else:
            out = out + c
    return out


def path(env, name, shape, chars):
    r = ""
    for i, n in enumerate(shape):
        t = env.text(f"{name}{i}", n, chars)
        env.assume(no(t == "."))
        r = r + "/" + t
    return r


def table(mounts, reverse=False):
    data = ""
    for m in (reversed(mounts) if reverse else mounts):
        data = data + escape(m[1]) + " " + escape(m[0]) + " " + m[2] + " rw,relatime 0 0\n"
    return F(data)


def get(env, node, target):
    """The mount attributes of the entry with this absolute path."""
    with active(World(D({"proc": D({"mounts": node})}))):
        Entry._mountpoints = entry_module.Mountpoints()
        ctx = context()
        e = entry(target[1:], root="/", absroot="/") if target != "/" else entry(".", root="/", absroot="/")
        if target == "/":
            e.abspath = "/"
        return [attr(ctx, e, a) for a in ("mpath", "devname", "fstype", "pseudofs")]


def run_spelled(env):
    """However the start directory is written, it is the absolute path that counts."""
    env.reach("spelled")
    tree = lambda: {"k": D({"f": F(b"")})}
    world, root, top, make = spelled(env, tree, tree)
    paths = {"/": True, "/k": True, "/w": True, "/w/k": True, "/s": True, "/s/k": True, "/w/s": True, "/w/s/k": True, "/l": True,
             "/l/k": True, "/w/s/x": True, "/w/s/x/k": True}
    here = top.rstrip("/") + "/k/f"
    # the mountpoints that matter, and all those that do not
    mounts = [(p, "dev" + p, "fs" + p.replace("/", ".")) for p in paths
              if not (here == p or here.startswith(p.rstrip("/") + "/")) or p == "/" or env.flag("mounted " + p)]
    best = max((m for m in mounts if here.startswith(m[0].rstrip("/") + "/")), key=lambda m: len(m[0]))
    world.root.children.append(("proc", D({"mounts": table(mounts, env.flag("reverse"))})))
    with active(world):
        Entry._mountpoints = entry_module.Mountpoints()
        ctx = context()
        e = make("k/f")
        env.check(strip(attr(ctx, e, "mpath")) == strip(best[0]), "mpath is wrong")
        env.check(attr(ctx, e, "devname") == best[1], "devname is wrong")
        env.check(attr(ctx, e, "fstype") == best[2], "fstype is wrong")


def run_others(env):
    """The mount attributes are those of this entry."""
    env.reach("others")
    world, make = neighbours({"f": F(b""), "d": D({"f": F(b"")})}, {"f": F(b""), "d": D({"f": F(b"")})})
    mounts = [("/", "a", "ext4")] + [m for m in (("/w/one", "b", "proc"), ("/w/two/d", "c", "xfs"), ("/w/one/d", "d", "tmpfs"))
                                     if env.flag("mounted " + m[0])]
    world.root.children.append(("proc", D({"mounts": table(mounts, env.flag("reverse"))})))
    want = {}
    for name in ("one/f", "two/f", "one/d/f", "two/d/f"):
        m = max((m for m in mounts if ("/w/" + name).startswith(m[0].rstrip("/") + "/")), key=lambda m: len(m[0]))
        want[name] = {"devname": m[1], "fstype": m[2], "pseudofs": m[2] in ("proc", "tmpfs") and m[2] in PSEUDO}
    with active(world):
        Entry._mountpoints = entry_module.Mountpoints()
        visit(env, make, want)


def run(env, case):
    what = case[0]
    if what == "type":
        fs = env.pick("fs", PSEUDO + ("ext4", "tmpfs2", "fuse", "proc.x", "", "nfs4"))
        # the device may be called like a file system
        dev = env.pick("dev", ("dev", "proc", "none", fs or "x", "sysfs"))
        got = get(env, table([("/", dev, fs)] if fs else []), "/f")
        if fs:
            env.check(got[1:3] == [dev, fs], "another device or file system type")
        env.check(got[3] == (fs in PSEUDO), "pseudofs is wrong")
        env.reach("pseudo" if fs in PSEUDO else "real")
        return
    if what == "bytes":
        env.reach("undecodable")
        data = b"/dev/\xff / ext4 rw 0 0\nx /\xfe ext3 rw 0 0\n"
        got = get(env, F(data), "/\udcfe/a")
        env.check(got[1:] == ["x", "ext3", False], "mount table with undecodable names")
        return
    if what == "spelled":
        return run_spelled(env)
    if what == "others":
        return run_others(env)
    if what == "entry-is-root":
        env.reach("root")
        node = table([("/", "r", "ext4"), ("/a", "a", "xfs")], env.flag("reverse"))
        env.check(get(env, node, "/")[1:3] == ["r", "ext4"], "the root directory")
        return
    if what == "literal":
        # a name that looks like an escape itself
        env.reach("literal")
        name = env.text("m", 4, ["\\ a", "\\01", "134", "04\\"])
        rest = env.text("n", 1, "a0 ")
        mounts = [("/", "rootdev", "ext4"), ("/" + name + rest, "dev0", "fs0")]
        target = "/" + name + env.text("e", 1, "a0 ")
        inside = bool(target == mounts[1][0])
        got = get(env, table(mounts), target + "/f")
        env.check(got[1] == ("dev0" if inside else "rootdev"), "devname is wrong")
        if inside:
            env.check(strip(got[0]) == mounts[1][0], "mpath is wrong")
        return
    _, root, shapes, eshape = case
    chars = CHARS if len(shapes) + sum(map(len, shapes)) < 4 else "ab\\"
    mounts = [("/", "rootdev", "ext4")] if root else []
    for i, s in enumerate(shapes):
        p = path(env, f"m{i}.", s, chars)
        for q, _, _ in mounts:
            if len(q) == len(p):
                env.assume(no(q == p))
        mounts.append((p, f"dev{i}", f"fs{i}"))
    target = path(env, "e", eshape, chars)
    best = None
    for m in mounts:
        p = m[0]
        if p == "/":
            inside = True
        elif len(p) > len(target):
            inside = False
        else:
            inside = bool(target[:len(p)] == p) and (len(p) == len(target) or
                                                     bool(target[len(p)] == "/"))
            if not inside and bool(target[:len(p)] == p):
                env.reach("prefix-only")
        if inside and (best is None or len(p) > len(best[0])):
            if best is not None and best[0] != "/":
                env.reach("nested")
            best = m
            if p == "/":
                env.reach("root")
            else:
                env.reach("mountpoint" if len(p) == len(target) else "below")
                if bool(escape(p) != p):
                    env.reach("escape")
    got = get(env, table(mounts, env.flag("reverse")), target)
    if best is None:
        env.reach("no-root")
        env.check(got[0] == "/", "mpath is wrong")
        return
    env.check(strip(got[0]) == strip(best[0]), "mpath is wrong")
    env.check(got[1] == best[1], "devname is wrong")
    env.check(got[2] == best[2], "fstype is wrong")
    env.check(got[3] == False, "pseudofs is wrong")     # noqa: E712


def strip(p):
    return p[:-1] if len(p) > 1 and bool(p[-1] == "/") else p
