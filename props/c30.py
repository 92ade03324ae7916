"""C30: content plugins and what they open."""

import bz2
import gzip
import io
import lzma
import stat as stat_module
import tarfile
import types

from .common import *

LABELS = ("regular", "not regular", "link", "followed", "unreadable", "undecodable", "valued", "other entry", "ignore file",
          "test", "sort", "digest")
BOUNDS = ("every content attribute x every file type, links to every file type with and without -L, file names of every "
          "kind the plugins look at, opening or reading failing with any of several errors, contents that are well-formed, "
          "broken in several ways, truncated, or of up to 2 symbolic bytes; libmagic, pymediainfo and pyelftools are "
          "stand-ins that open the file or fail as the libraries do")
ASSUME = ("the third-party libraries raise only the exceptions they document",)
BUDGET = {"quick": 200, "thorough": 3000}


class Broken(Exception):
    pass


def archive(mode, n=2):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode=mode) as tar:
        for i in range(n):
            info = tarfile.TarInfo(f"m{i}")
            info.size = 600
            tar.addfile(info, io.BytesIO(bytes(range(200)) * 3))
    return out.getvalue()


CONTENTS = {
    "tar": None, "py": None,
}


def warm():
    from . import common
    common.warm()
    magic = types.ModuleType("magic")

    def detect(path):
        with open(path, "rb") as f:
            f.read()
        return types.SimpleNamespace(mime_type="text/plain", encoding="us-ascii", name="text")
    magic.detect_from_filename = detect
    sys.modules["magic"] = magic

    media = types.ModuleType("pymediainfo")

    class Track(types.SimpleNamespace):
        """Unknown attributes are None, as in the library."""

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return None

    class MediaInfo(core.Fake):
        @classmethod
        def parse(cls, path, **kw):
            with open(path, "rb") as f:
                if f.read(1) == b"\xff":
                    raise RuntimeError("broken")
            self = cls()
            self.tracks = [Track(track_type="Audio", duration=5000)]
            return self
    media.MediaInfo = MediaInfo
    sys.modules["pymediainfo"] = media

    for name in ("elftools", "elftools.elf", "elftools.elf.dynamic", "elftools.elf.elffile", "elftools.common",
                 "elftools.common.exceptions"):
        sys.modules[name] = types.ModuleType(name)
    exc = sys.modules["elftools.common.exceptions"]

    class ELFError(Exception):
        pass
    exc.ELFError = ELFError

    class Dyn(core.Fake):
        def iter_tags(self):
            return iter([types.SimpleNamespace(entry=types.SimpleNamespace(d_tag="DT_NEEDED"), needed="libc.so")])

    class ELFFile(core.Fake):
        def __init__(self, f):
            f.seek(4)
            if f.read(1) != b"\x02":
                raise ELFError("broken")

        def iter_sections(self):
            return iter([Dyn()])
    sys.modules["elftools.elf.dynamic"].DynamicSection = Dyn
    sys.modules["elftools.elf.elffile"].ELFFile = ELFFile

    good = archive("w")
    CONTENTS["tar"] = {
        "good": good, "empty": b"", "garbage": b"no archive" * 100, "cut header": good[:300], "cut data": good[:700],
        "gz": archive("w:gz"), "cut gz": archive("w:gz")[:40], "gz header": archive("w:gz")[:5],
        "bad gz": archive("w:gz")[:30] + b"\xff" * 40 + archive("w:gz")[70:],
        "gz crc": archive("w:gz")[:-8] + b"\0" * 8,
        "xz": archive("w:xz"), "cut xz": archive("w:xz")[:60], "bad xz": archive("w:xz")[:40] + b"\xff" * 60,
        "bz2": archive("w:bz2"), "cut bz2": archive("w:bz2")[:60], "bad bz2": archive("w:bz2")[:20] + b"\xff" * 60,
        "bad second": good[:1536] + b"\xff" * 512 + good[2048:],
        "bad size": good[:124] + b"zzzzzzzzzzz" + good[135:],
    }
    CONTENTS["py"] = {
        "good": b"import os\n", "empty": b"", "syntax": b"import (\n", "nul": b"import os\0\n", "latin": b"# \xe9\nimport os\n",
        "cookie": b"# coding: nosuch\nimport os\n", "deep": b"(" * 500, "minus": b"x = " + b"-" * 9000 + b"1\n",
        "star": b"from os import *\n", "relative": b"from .. import a\nfrom .b import c\n", "indent": b" import os\n",
        "bom": b"\xef\xbb\xbfimport os\n", "surrogate": b"x = '\\ud800'\nimport os\n", "bytes": b"b'\xc3\xa9'\n",
    }
    CONTENTS["shebang"] = {"good": b"#!/bin/sh\n", "python": b"#!/usr/bin/python\nimport os\n", "latin": b"#!/bin/\xe9\n",
                           "late": b"\xff\n#!/usr/bin/python\n", "python broken": b"#!python\nimport (\n"}
    CONTENTS["elf"] = {"good": b"\x7fELF\x02", "bad": b"\x7fELF\x01", "short": b"\x7fELF", "other": b"abcdef", "tiny": b"\x7f"}
    CONTENTS["media"] = {"good": b"ID3", "bad": b"\xff"}


ATTRS = {
    "grep.text": ("x",), "grep.linecount": ("x", ".x"), "grep.lines": ("x",), "shebang.shebang": ("x", "x.py"),
    "py.imports": ("x.py", "x.PY", "x"), "elf.sonames": ("x",), "tar.members": ("x.tar", "x.tar.gz", "x.tgz", ".tar"),
    "md5.md5": ("x",), "sha256.sha256": ("x",), "blake2b.blake2b": ("x",), "shake_128.shake_128": ("x",),
    "shake_256.shake_256": ("x",), "mime.mime": ("x",), "mime.encoding": ("x.py",), "medium.duration": ("x.mp3", "x.png", "x.mp4"),
}
KIND = {"grep": None, "shebang": "shebang", "py": "py", "elf": "elf", "tar": "tar", "mime": "media", "medium": "media"}
ERRNOS = ("EACCES", "EIO", "ENOENT", "ELOOP", "EISDIR", "ENXIO")
KINDS = ("f", "d", "p", "s", "c", "b")


def cases(tier):
    for a, names in ATTRS.items():
        for i, name in enumerate(names):
            yield ("kinds", a, name)
            yield ("faults", a, name)
            kind = KIND.get(a.split(".")[0])
            if i == 0 or kind in ("py", "shebang", "tar"):
                yield ("contents", a, name)
        yield ("as", a, names[0])
    for n in (1, 2):
        for a in ("grep.text", "shebang.shebang", "md5.md5", "py.imports"):
            yield ("bytes", a, n)
    yield ("ignore", "-I")
    yield ("ignore", "ignored=no")
    yield ("hashes",)


class Watch(ExecWorld):
    """Notices when something that is not a regular file is opened."""

    def __init__(self, root):
        super().__init__(root)
        self.wrong = []

    def opened(self, node, path):
        if node.kind != "f" and node.kind != "d" or node.kind == "d" and self.strict:
            self.wrong.append(path)
            # it would block or have side effects
            raise OSError(errno.ENXIO, "not a file", path)

    strict = True

    def lookup(self, path, follow=True):
        return super().lookup(path, follow)


def open_hooks():
    # these modules keep their own reference to open()
    import builtins
    tarfile.bltn_open = builtins.open
    bz2._builtin_open = builtins.open


def run(env, case):
    open_hooks()
    globals()["run_" + case[0]](env, *case[1:])


OTHER = {"other.py": b"#!/usr/bin/python\nimport sys\n", "other.tar": None, "other.mp3": b"ID3", "other.elf": b"\x7fELF\x02"}


def make(entry, name, extra=None):
    tree = {}
    for n, data in OTHER.items():
        tree[n] = F(CONTENTS["tar"]["good"] if data is None else data)
    tree[name] = entry
    tree.update(extra or {})
    world = Watch(D({"w": D(tree), "o": D({"d": D({}), "f": F(b"#!x\nimport os\n"), "p": W.Node("p"), "s": W.Node("s"),
                                           "c": W.Node("c"), "b": W.Node("b"), "l": L("/o/f")})}))
    return world


BASE = {}


def values(env, world, attribute, follow=False, how="output"):
    """Run the programme; {path: value or None}"""
    argv = {"output": ["--all", "-o", "path," + attribute], "sort": ["--all", "-S", attribute, "-o", "path," + attribute]}[how]
    with active(world):
        status = programme("--jsonl", *argv, *(["-L"] if follow else []))
    env.check(not world.wrong, "something that is not a regular file is opened")
    env.check(status == 0, "the search fails")
    out = {}
    for line in world.stdout.text().split("\n"):
        if len(line):
            rec = parse_json(line)
            path = rec["path"]
            env.check(path not in out, "an entry is listed twice")
            out[path[3:]] = rec[attribute]
    return out


def finish(env, out, attribute, name, has, world):
    for n in OTHER:
        env.check(n in out, "another entry is missing")
        want = {"py": n == "other.py", "shebang": n == "other.py", "elf": n == "other.elf", "tar": n == "other.tar",
                "medium": n == "other.mp3"}.get(attribute.split(".")[0], True)
        if attribute in ("grep.linecount", "grep.lines") and n == "other.tar":
            want = False
        if n != name:
            env.check((out[n] is not None) == want, "another entry's value is affected")
    env.reach("other entry")
    env.check(name in out, "the entry is missing")
    if has is not None:
        env.check((out[name] is not None) == has, "a value is missing" if has else "a value without a file behind it")
    env.observe([sorted(k for k in out if k is not None), out[name] is not None])


def run_kinds(env, attribute, name):
    kind = env.pick("kind", KINDS + ("l",))
    follow = env.flag("-L")
    if kind == "l":
        env.reach("link")
        target = env.pick("target", KINDS + ("l",))
        node = L("/o/" + target)
        if follow:
            env.reach("followed")
            kind = "f" if target == "l" else target
    elif kind == "f":
        node = F(b"#!python\nimport os\n")
    elif kind == "d":
        node = D({})
    else:
        node = W.Node(kind)
    world = make(node, name)
    out = values(env, world, attribute, follow)
    if kind == "f":
        env.reach("regular")
        has = True if attribute.split(".")[0] in ("grep", "md5", "mime", "shebang") else None
    else:
        env.reach("not regular")
        has = False
    finish(env, out, attribute, name, has, world)


def good(attribute):
    kind = KIND.get(attribute.split(".")[0])
    return CONTENTS[kind]["good"] if kind else b"abc\n"


def run_faults(env, attribute, name):
    env.reach("unreadable")
    op = env.pick("op", ("open", "read"))
    node = F(good(attribute), errors={op: getattr(errno, env.pick("errno", ERRNOS))})
    world = make(node, name)
    out = values(env, world, attribute, env.flag("-L"))
    finish(env, out, attribute, name, False, world)


def run_contents(env, attribute, name):
    kind = KIND.get(attribute.split(".")[0]) or "shebang"
    what = env.pick("content", tuple(CONTENTS[kind]))
    world = make(F(CONTENTS[kind][what]), name)
    out = values(env, world, attribute, False)
    has = None
    if what == "good" and not (attribute == "py.imports" and name == "x"):
        env.reach("valued")
        has = True
    elif attribute == "tar.members" and what in ("garbage", "gz header", "bad size"):
        has = False
        env.reach("undecodable")
    elif attribute == "py.imports" and what in ("syntax", "nul", "indent"):
        has = False
    elif attribute == "py.imports" and what == "python broken":
        has = False
    finish(env, out, attribute, name, has, world)


def run_bytes(env, attribute, n):
    name = "x.py" if attribute.startswith("py") else "x"
    data = env.bytes("data", n, b"#!\n\xc3\xa9\xff\0" if n == 2 or attribute.startswith(("py", "md5")) else bytes(range(256)))
    if attribute.startswith(("py", "md5")):
        data = env.concrete(data) if n == 1 else env.concrete(data)
    world = make(F(data), name)
    out = values(env, world, attribute, False)
    finish(env, out, attribute, name, True if attribute in ("grep.text", "md5.md5") else None, world)


def run_as(env, attribute, name):
    """The attribute as a sort key and as a test."""
    how = env.pick("how", ("sort", "test"))
    kind = env.pick("kind", ("p", "d", "l", "f"))
    node = {"p": W.Node("p"), "d": D({}), "l": L("/o/p"),
            "f": F(good(attribute), errors={"open": errno.EACCES})}[kind]
    world = make(node, name)
    env.reach(how)
    if how == "sort":
        out = values(env, world, attribute, False, "sort")
        finish(env, out, attribute, name, False, world)
        return
    op = "=yes" if attribute == "grep.text" else "+=0" if attribute in ("grep.linecount", "medium.duration") else "~."
    with active(world):
        status = programme(attribute + op, "OR", "name=other.mp3")
    env.check(not world.wrong, "something that is not a regular file is opened")
    env.check(status == 0, "the search fails")
    out = world.stdout.text().split("\n")
    env.check(name not in out, "an entry without a value matches")
    env.check("other.mp3" in out, "another entry is missing")


def run_ignore(env, how):
    """Ignore files are opened only if they are regular files."""
    env.reach("ignore file")
    kind = env.pick("kind", KINDS + ("l", "x"))
    name = env.pick("name", (".gitignore", ".ignore", ".fdignore", ".ffignore"))
    if kind == "l":
        target = env.pick("target", KINDS)
        node = L("/o/" + target)
    elif kind == "x":
        node = F(b"", errors={env.pick("op", ("open", "read")): getattr(errno, env.pick("errno", ERRNOS))})
    else:
        node = F(b"no\n") if kind == "f" else D({}) if kind == "d" else W.Node(kind)
    world = make(node, name, {"no": F(b"")})
    world.strict = False        # open() of a directory merely fails
    where = env.pick("where", ("here", "parent"))
    if where == "parent":
        inner = make(F(b""), "no")
        world = Watch(D({"w": D({"s": inner.root.children[0][1], name: node}), "o": inner.root.children[1][1]}))
        world.strict = False
        world.cwd = "/w/s"
    with active(world):
        saved = sys.argv
        status = programme(how)
    env.check(not world.wrong, "something that is not a regular file is opened")
    env.check(status == 0, "the search fails")
    out = world.stdout.text().split("\n")
    env.check("other.py" in out, "another entry is missing")
    if kind == "f" and (how == "-I" or where == "here"):
        env.check("no" not in out, "the ignore file is not read")
    elif kind not in "lf":
        env.check("no" in out, "an entry is ignored without a reason")


def run_hashes(env):
    """Every hash plugin has a value for every readable file."""
    import hashlib
    env.reach("digest")
    name = env.pick("name", tuple(sorted(hashlib.algorithms_guaranteed)))
    world = make(F(b"abc"), "x")
    out = values(env, world, name + "." + name, False)
    finish(env, out, name + "." + name, "x", True, world)
