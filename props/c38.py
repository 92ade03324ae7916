"""C38: attributes that describe the system an entry is part of: file system type, extended attributes, packages."""

import ctypes

from symx import loader
from .common import *

LABELS = ("known type", "any type", "remote", "local", "directory", "other", "mounted", "no statfs", "no xattrs", "xattrs",
          "unreadable xattrs", "symlink", "installed", "not installed", "directory of a package", "shared", "relative",
          "absolute", "no such command", "vanished xattr", "spelled", "others")
BOUNDS = ("all 2^32 file system types for a tree of two file systems, entries of any type relative to or below three start "
          "directories; up to 2 (thorough 3) extended attributes with symbolic names and values of up to 2 bytes; two "
          "packages with up to three files with symbolic names of up to 2 (thorough 3) characters, among them blanks and "
          "undecodable bytes; every system call may fail")
ASSUME = ("the meaning of the file system types is the one in coreutils for the 24 types listed in the harness, others are "
          "not specified", "statfs64(), listxattr(), getxattr() and 'pacman -Ql' are stand-ins that behave as documented",
          "names contain no line ends, which pacman does not quote")
BUDGET = {"quick": 200, "thorough": 2400}

TYPES = {0xEF53: ("ext2/ext3", False), 0x9123683E: ("btrfs", False), 0x58465342: ("xfs", False), 0x01021994: ("tmpfs", False),
         0x9FA0: ("proc", False), 0x62656572: ("sysfs", False), 0x6969: ("nfs", True), 0xFF534D42: ("cifs", True),
         0x517B: ("smb", True), 0x9660: ("isofs", False), 0x4D44: ("msdos", False), 0x5346544E: ("ntfs", False),
         0x73717368: ("squashfs", False), 0x1CD1: ("devpts", False), 0x0027E0EB: ("cgroupfs", False),
         0x858458F6: ("ramfs", False), 0x65735546: ("fuseblk", True), 0xF2F52010: ("f2fs", False), 0x2FC12FC1: ("zfs", False),
         0x00C36400: ("ceph", True), 0x52654973: ("reiserfs", False), 0x3153464A: ("jfs", False), 0x137F: ("minix", False),
         0x64626720: ("debugfs", False)}
_sys = {}


class Buffer(core.Fake):
    """An array of C numbers whose items may be symbolic."""

    def __init__(self, n):
        self.items = [0] * n

    def __getitem__(self, i):
        return self.items[i]


class Uint(core.Fake):
    """Stands for ctypes.c_uint, as far as it is used for buffers."""

    def __init__(self, n=None):
        self.n = n

    def __mul__(self, n):
        return Uint(n)

    def __call__(self, *a):
        if self.n is None or a:
            raise W.core.Unsupported("c_uint()")
        return Buffer(self.n)


class Reference:
    def __init__(self, obj):
        self._obj = obj


class Libc(core.Fake):
    """The C library."""

    def statfs64(self, path, buf):
        path = getattr(path, "value", path)
        value = _sys["statfs"](os.fsdecode(path))
        if isinstance(value, OSError):
            ctypes.set_errno(value.errno)
            return -1
        obj = buf._obj
        if type(obj) is Buffer:
            obj.items[0] = value
            obj.items[1] = 0
        elif type(value) is not int:
            raise W.core.Unsupported("a C structure with a symbolic value")
        else:
            ctypes.memmove(ctypes.addressof(obj), value.to_bytes(8, "little"), 8)
        return 0

    statfs = statfs64


def warm():
    from . import common
    saved = ctypes.CDLL, ctypes.c_uint, ctypes.byref
    byref = ctypes.byref
    ctypes.CDLL = lambda name, *a, **k: Libc() if str(name).startswith("libc.") else saved[0](name, *a, **k)
    if loader.Loader.symbolic:
        ctypes.c_uint = Uint()
        ctypes.byref = lambda obj, *a: Reference(obj) if type(obj) is Buffer else byref(obj, *a)
    try:
        common.warm()
    finally:
        ctypes.CDLL, ctypes.c_uint, ctypes.byref = saved


def cases(tier):
    deep = tier == "thorough"
    for name in ("f", "m", "m/g", "m/d", "m/d/h", "l", "dl", "p"):
        for root in (".", "/w", "../w"):
            yield ("fs", name, root, False)
        if "l" in name:
            yield ("fs", name, ".", True)
    for kind in ("f", "d", "l", "p"):
        for n in range(4 if deep else 3):
            yield ("xattr", kind, n)
    for n in (1, 2) + ((3,) if deep else ()):
        for root in (".", "/w/d", "d", "../w/d"):
            yield ("pacman", n, root)
    yield ("no pacman",)
    yield ("spelled",)
    yield ("others",)


def run(env, case):
    globals()["run_" + case[0].replace(" ", "_")](env, *case[1:])


def start(root):
    return {".": "/w", "../w": "/w", "/w": "/w"}[root]


def run_fs(env, name, root, follow):
    a, b = env.int("type", 0, 2 ** 32 - 1), env.int("mounted type", 0, 2 ** 32 - 1)
    world = World(D({"w": D({"f": F(b""), "p": W.Node("p"), "l": L("m/g"), "dl": L("m/d"),
                             "m": D({"g": F(b""), "d": D({"h": F(b"")})})})}))
    world.cwd = "/w"
    fails = env.flag("fails")

    def statfs(path):
        if fails:
            return OSError(env.pick("errno", (errno.ENOENT, errno.EACCES, errno.EIO)), "x")
        if not path:
            return OSError(errno.ENOENT, "x")
        if not path.startswith("/"):
            path = "/w/" + path
        path = os.path.normpath(path)
        try:
            node = world.lookup(path)
        except OSError as exc:
            return exc
        # a link has been followed
        path = {"/w/l": "/w/m/g", "/w/dl": "/w/m/d"}.get(path, path)
        return b if path == "/w/m" or path.startswith("/w/m/") else a
    _sys["statfs"] = statfs
    with active(world):
        ctx = context(*(["-L"] if follow else []))
        st = world.stat("/w/" + name, follow)
        e = entry(name, st, root=root, absroot="/w")
        got = {n: attr(ctx, e, "fs." + n) for n in ("type", "remote")}
    if fails:
        env.reach("no statfs")
        for v in got.values():
            env.check(v is MISSING, "a value the system did not give")
        return
    inside = name.startswith("m") or follow and name == "dl"
    if follow and name == "l":
        return      # left open: the file system of the link, or of its target
    env.reach("mounted" if inside else "other")
    if name in ("m", "m/d"):
        env.reach("directory")
    want = b if inside else a
    env.check(got["type"] is not MISSING and got["remote"] is not MISSING, "no value")
    env.reach("any type")
    for k, (text, remote) in TYPES.items():
        if want == k:
            env.reach("known type")
            env.reach("remote" if remote else "local")
            env.check(got["type"] == text, "wrong file system type")
            env.check(bool(got["remote"]) == remote, "wrong answer whether the file system is remote")
            return


def run_spelled(env):
    """However the start directory is written, the system is asked about what is below it."""
    env.reach("spelled")
    world, root, top, make = spelled(env, lambda: {"k": D({"f": W.Node("f", xattrs=[("user.a", b"1")]), "p": W.Node("p"), "d": D({})})},
                                     lambda: {"k": D({"f": W.Node("f", xattrs=[("user.b", b"2")]), "p": W.Node("p"), "d": D({})})})
    name = env.pick("name", ("f", "p", "d"))
    here = [world.lookup(top.rstrip("/") + "/k/" + n) for n in "fpd"] + [world.lookup(top.rstrip("/") + "/k")]
    asked = []

    def statfs(path):
        if not path:
            return OSError(errno.ENOENT, "x")
        asked.append(world.lookup(path))
        return 0x58465342 if any(asked[-1] is h for h in here) else 0x6969
    _sys["statfs"] = statfs
    with active(world):
        ctx = context()
        e = make("k/" + name)
        env.check(attr(ctx, e, "fs.type") == "xfs", "wrong file system type")
        if name == "f":
            env.check(list(attr(ctx, e, "xattr.xattrs")) == ["user.a=1"], "wrong extended attribute")


def run_others(env):
    env.reach("others")
    world, make = neighbours({"f": W.Node("f", xattrs=[("user.a", b"1")]), "g": F(b""), "d": D({"f": F(b"", dev=1)})},
                             {"f": W.Node("f", xattrs=[("user.b", b"2")]), "g": W.Node("f", xattrs=[("user.c", b"3")], errors={"xattr": errno.EACCES}),
                              "d": D({"f": W.Node("f", xattrs=[("user.a", b"4")], dev=3)}, xattrs=[("user.d", b"5")])})
    deep = dict(dict(world.root.children)["w"].children)["two"]
    dict(deep.children)["d"].st.st_dev = 3
    on = {1: 0x58465342, 2: 0x6969, 3: 0x01021994}
    _sys["statfs"] = lambda path: on[world.lookup(path).st.st_dev] if path else OSError(errno.ENOENT, "x")
    xfs, nfs, tmpfs = ({"fs.type": t, "fs.remote": r} for t, r in (("xfs", False), ("nfs", True), ("tmpfs", False)))
    with active(world):
        visit(env, make, {"one/f": {**xfs, "xattr.xattrs": ["user.a=1"]}, "two/f": {**nfs, "xattr.xattrs": ["user.b=2"]},
                          "one/g": {**xfs, "xattr.xattrs": []}, "two/g": {**nfs, "xattr.xattrs": []},
                          "two/d/f": {**tmpfs, "xattr.xattrs": ["user.a=4"]}, "two/d": {**tmpfs, "xattr.xattrs": ["user.d=5"]},
                          "one/d/f": {**xfs, "xattr.xattrs": []}})


def run_xattr(env, kind, n):
    pairs = []
    for i in range(n):
        key = "user." + env.text(f"key{i}", 1, "ab= ")
        for k, v in pairs:
            env.assume(k != key)
        value = env.bytes(f"value{i}", env.pick(f"length{i}", (0, 1, 2)), b"a=\n\xc3\xa4\xff\0")
        pairs.append((key, value))
    fault = env.pick("fault", (None, "xattr", "getxattr"))
    code = env.pick("errno", (errno.EACCES, errno.ENOTSUP, errno.ENOENT, errno.ENODATA)) if fault else 0
    node = W.Node(kind, target="x" if kind == "l" else None, xattrs=pairs, errors={fault: code} if fault else None)
    world = World(D({"w": D({"e": node})}))
    world.cwd = "/w"
    with active(world):
        ctx = context()
        got = attr(ctx, entry("e", world.stat("/w/e", False)), "xattr.xattrs")
    if kind not in "fd":
        env.reach("symlink" if kind == "l" else "other")
        env.check(got is MISSING or not len(got), "extended attributes of what has none")
        return
    if fault and (n or fault == "xattr"):
        env.reach("vanished xattr" if fault == "getxattr" else "unreadable xattrs")
        env.check(got is MISSING or not len(got), "extended attributes that cannot be read")
        return
    env.reach("xattrs" if n else "no xattrs")
    env.check(got is not MISSING, "no value")
    env.check(len(got) == n, "wrong number of extended attributes")
    for (k, v), g in zip(pairs, got):
        env.check(g == k + "=" + v.decode("utf-8", "surrogateescape"), "wrong extended attribute")


class PacmanWorld(World):
    lines = None

    def popen(self, args, **kw):
        args = list(args)
        if args != ["pacman", "-Ql"]:
            raise W.core.Unsupported("a command other than pacman -Ql")
        if self.lines is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", "pacman")
        data = "".join([f"{p} {f}\n" for p, f in self.lines]).encode("utf-8", "surrogateescape")
        if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors"):
            data = data.decode(kw.get("encoding") or "utf-8", kw.get("errors") or "strict")
        return W.FakePopen([], 0, data, data[:0])


def run_pacman(env, n, root):
    top = {".": "/w", "/w/d": "/w/d", "d": "/w/d", "../w/d": "/w/d"}[root]
    env.reach("absolute" if root.startswith("/") else "relative")
    name = env.text("name", n, "a .\udcff\xe9")
    env.assume((name != ".") & (name != "..")) if n < 3 else None
    other = env.text("other", 1, "ab")
    have = env.pick("listed", ("no", "one", "both", "below", "above"))
    world = PacmanWorld(D({"w": D({"d": D({})})}))
    world.cwd = "/w"
    isdir = env.flag("dir")
    slash = "/" if isdir else ""
    lines = [("aa", "/w/"), ("aa", "/w/zz")]
    path = top + "/" + name
    want = set()
    if have in ("one", "both"):
        lines.append(("b-b", path + slash))
        want.add("b-b")
    if have == "both":
        env.reach("shared")
        lines.append(("c", path + slash))
        want.add("c")
    if have == "below":
        lines.append(("b-b", path + "/" + other))
    if have == "above":
        lines.append(("b-b", top + "/"))
    lines.append(("c", top + "/" + other))
    if bool(name == other):
        want.add("c")
    lines.append(("c", "/" + name))
    world.lines = lines
    with active(world):
        ctx = context()
        e = entry(name, Status(mode=0o40755 if isdir else 0o100644), root=root, absroot=top)
        got = {a: attr(ctx, e, "pacman." + a) for a in ("installed", "pkgname")}
    if isdir:
        env.reach("directory of a package")
    env.check(got["installed"] is not MISSING, "no value")
    env.check(bool(got["installed"]) == bool(want), "wrong answer whether a package holds the entry")
    env.reach("installed" if want else "not installed")
    if want:
        env.check(got["pkgname"] is not MISSING, "no package name")
        env.check(got["pkgname"] in want, "wrong package")
    else:
        env.check(got["pkgname"] is MISSING, "the package of what is in none")


def run_no_pacman(env):
    env.reach("no such command")
    world = PacmanWorld(D({"w": D({})}))
    with active(world):
        ctx = context()
        try:
            ctx.registry.setup_attribute("pacman.installed")
        except X.BadPluginError:
            return
        env.fail("a command that is missing goes unnoticed")
