"""C31: content attributes."""

import ast
import hashlib
import tarfile
import types

from symx import loader

from .common import *

LABELS = ("others", "text", "binary", "empty", "unterminated", "shebang", "no shebang", "imports", "relative import", "several names",
          "nested", "digest", "large", "members", "sonames", "test", "encoding", "python",
          "not python", "elf", "not elf", "archive", "no archive", "separator", "twins", "spelled")
BOUNDS = ("grep: contents of up to 4 (thorough 5) symbolic bytes; shebang: contents of up to 5 (thorough 7) symbolic bytes; py: "
          "syntax trees of up to 3 statements, also nested in other statements, with symbolic module names and levels; hash "
          "functions: contents of 0 to 3 symbolic bytes and around one and two multiples of the read size; "
          "encodings of Python files; names and first bytes that decide what a file is; files of one name in two directories; ten spellings of the start directory; tar and elf: up "
          "to 3 symbolic names.  Carriage returns as line ends are left out, and so are shebang lines that are not ASCII")
ASSUME = ("hash functions, ast.parse, tarfile and pyelftools do what they are for: the check decides what is passed to them and "
          "what is made of their results",)
BUDGET = {"quick": 250, "thorough": 3000}

ALGORITHMS = ("md5", "sha1", "sha256", "sha512", "blake2b", "sha3_256", "shake_128", "shake_256")


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 6 if deep else 5):
        yield ("grep", n)
    yield ("utf8", 1)
    yield ("utf8", 2)
    yield ("utf8", 3)
    for n in range(0, 8 if deep else 6):
        yield ("shebang", n)
    for name in ALGORITHMS:
        for size in (0, 1, 3, 4095, 4096, 8190, 8191, 8192, 16384, 65536):
            if size < 100 or name in ("md5", "shake_256"):
                yield ("digest", name, size)
    yield ("empty tree",)
    yield ("twins",)
    for what in OTHERS:
        yield ("others", what)
    for what in ("text", "hash", "shebang", "python", "elf", "tar"):
        yield ("spelled", what)
    for n in (1, 2) + ((3,) if deep else ()):
        for shape in ("flat", "function", "class", "if", "try", "with", "deep"):
            yield ("imports", n, shape)
    for n in (0, 1, 2, 3):
        yield ("members", n)
        yield ("sonames", n)
    for kind in ("plain", "bom", "latin", "latin bom"):
        yield ("encoding", kind)
    for n in (1, 2, 3):
        yield ("python name", n)
    yield ("python shebang",)
    yield ("elf magic",)
    for end in TAR:
        yield ("tar name", end)
    yield ("separators",)
    yield ("lines test", 2)
    yield ("lines test", 3)


_elf = {}


def warm():
    from . import common
    common.warm()
    for name in ("elftools", "elftools.elf", "elftools.elf.dynamic", "elftools.elf.elffile", "elftools.common",
                 "elftools.common.exceptions"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["elftools.common.exceptions"].ELFError = type("ELFError", (Exception,), {})

    class Dyn(core.Fake):
        def __init__(self, tags):
            self.tags = tags

        def iter_tags(self, type=None):
            return iter([t for t in self.tags if type is None or t.entry.d_tag == type])

    class ELFFile(core.Fake):
        def __init__(self, f):
            if _elf.get("magic"):
                f.seek(0)
                _elf["magic"].append(f.read(4))
            self.sections = _elf["sections"](f) if callable(_elf["sections"]) else _elf["sections"]

        def iter_sections(self, type=None):
            return iter(self.sections)
    _elf["Dyn"] = Dyn
    sys.modules["elftools.elf.dynamic"].DynamicSection = Dyn
    sys.modules["elftools.elf.elffile"].ELFFile = ELFFile


def run(env, case):
    globals()["run_" + case[0].replace(" ", "_")](env, *case[1:])


def values(env, data, *attributes, name="f"):
    world = World(D({"w": D({name: F(data)})}))
    with active(world):
        ctx = context()
        e = entry(name, world.stat(name, False))
        return [attr(ctx, e, a) for a in attributes]


# ----------------------------------------------------------------------- grep --
def utf8(data):
    """Whether bytes are well-formed UTF-8 (Unicode, table 3-7); branches on the bytes."""
    i, n = 0, len(data)
    while i < n:
        b = data[i]
        if b < 0x80:
            i += 1
            continue
        lo, hi = 0x80, 0xbf
        if b < 0xc2 or b > 0xf4:
            return False
        if b < 0xe0:
            k = 1
        elif b < 0xf0:
            k = 2
            if b == 0xe0:
                lo = 0xa0
            elif b == 0xed:
                hi = 0x9f
        else:
            k = 3
            if b == 0xf0:
                lo = 0x90
            elif b == 0xf4:
                hi = 0x8f
        for j in range(k):
            i += 1
            if i >= n or data[i] < lo or data[i] > hi:
                return False
            lo, hi = 0x80, 0xbf
        i += 1
    return True


def run_twins(env):
    """Files of the same name in several directories that are searched."""
    env.reach("twins")
    data = [env.bytes(f"data{i}", 2, b"a\n") for i in range(2)]
    world = World(D({"w": D({"x": D({"f": F(data[0])}), "y": D({"f": F(data[1])})})}))
    which = env.pick("attribute", ("grep.lines", "grep.linecount"))
    with active(world):
        ctx = context()
        got = {}
        for d in env.pick("order", (("x", "y"), ("y", "x"))):
            e = entry("f", world.stat(d + "/f", False), root=d, absroot="/w/" + d)
            got[d] = attr(ctx, e, which)
    count = [(d[0] == 10) * 1 + 1 for d in data]
    if which == "grep.lines":
        for d, b in zip("xy", data):
            want = [""]
            for c in b:
                if c == 10:
                    want.append("")
                else:
                    want[-1] = want[-1] + "a"
            if not want[-1]:
                want.pop()
            env.check(got[d] == want, "wrong lines of a file of the same name as another one")
    else:
        env.check(got["x"] == count[0] and got["y"] == count[1], "wrong number of lines of a file of the same name as another one")


def run_spelled(env, what):
    """However the start directory is written, it is the files below it that are read."""
    env.reach("spelled")
    name = {"python": "f.py", "tar": "f.tar"}.get(what, "f")
    right = {"text": env.bytes("data", 2, b"a\n"), "hash": b"right", "shebang": b"#!right\n",
             "python": b"import right\nfrom .a import b\nfrom ..a import b\n", "elf": b"\x7fELF", "tar": b""}[what]
    wrong = {"text": b"b\nb\nb\n", "hash": b"wrong", "shebang": b"#!python\n", "python": b"import wrong\n", "elf": b"xxxx", "tar": b""}[what]
    world, root, top, make = spelled(env, lambda: {"k": D({name: F(right)})}, lambda: {"k": D({name: F(wrong)})})
    saved, opened = tarfile.open, []

    def fake(name=None, *a, **kw):
        opened.append(world.lookup(name))
        return FakeTar(["m"])
    tarfile.open = fake
    _elf["sections"] = []
    _elf["magic"] = [b"\x7fELF"]
    try:
        with active(world):
            ctx = context()
            e = make("k/" + name)
            here = world.lookup(top.rstrip("/") + "/k/" + name)
            if what == "text":
                count, lines = attr(ctx, e, "grep.linecount"), attr(ctx, e, "grep.lines")
                env.check(count == (right[0] == 10) * 1 + 1, "wrong number of lines")
                env.check(len(lines) == count and not any(bool(x == "b") for x in lines), "the lines of another file")
            elif what == "hash":
                env.check(attr(ctx, e, "sha1.sha1") == hashlib.sha1(right).hexdigest(), "the digest of another file")
            elif what == "shebang":
                env.check(attr(ctx, e, "shebang.shebang") == "right", "the interpreter of another file")
                env.check(attr(ctx, e, "py.imports") is MISSING, "a Python file because of another file")
            elif what == "python":
                want = ["right", "k.a", os.path.basename(top) + ".a"]
                got = attr(ctx, e, "py.imports")
                if top == "/":
                    # the root directory has no name
                    want, got = want[:2], [m for m in got if not m.startswith(".")]
                env.check(got is not MISSING and sorted(got) == sorted(want), "the imports of another file")
            elif what == "elf":
                env.check(attr(ctx, e, "elf.sonames") is not MISSING, "another file is looked at")
                env.check(all(m == b"\x7fELF" for m in _elf["magic"]), "another file is looked at")
            else:
                env.check(list(attr(ctx, e, "tar.members")) == ["m"] and all(n is here for n in opened), "another file is opened")
    finally:
        tarfile.open = saved
        del _elf["magic"]


def digests(data):
    return {"sha1.sha1": hashlib.sha1(data).hexdigest(), "shake_128.shake_128": hashlib.shake_128(data).hexdigest(16)}


OTHERS = {
    "hash": {"one/f": (b"right", digests(b"right")), "two/f": (b"wrong", digests(b"wrong")), "one/g": (b"", digests(b"")),
             "two/g": (b"left!", digests(b"left!"))},
    "text": {"one/f": (b"a\n", {"grep.lines": ["a"], "grep.text": True}), "two/f": (b"b\n", {"grep.lines": ["b"], "grep.linecount": 1}),
             "one/g": (b"\xff\n", {"grep.lines": MISSING, "grep.linecount": MISSING, "grep.text": False}),
             "two/g": (b"", {"grep.lines": [], "grep.linecount": 0, "grep.text": True})},
    "shebang": {"one/f": (b"#!a\n", {"shebang.shebang": "a"}), "two/f": (b"#!b\n", {"shebang.shebang": "b"}),
                "one/g": (b"#!/\n", {"shebang.shebang": "/"}), "two/g": (b"no\n", {"shebang.shebang": MISSING})},
    "python": {"one/f.py": (b"import a\n", {"py.imports": ["a"]}), "two/f.py": (b"from .b import c\n", {"py.imports": ["two.b"]}),
               "one/g": (b"#!python\nimport a\n", {"py.imports": ["a"]}), "two/g": (b"#!/bin/sh\nimport b\n", {"py.imports": MISSING}),
               "one/h.py": (b"from .b import c\n", {"py.imports": ["one.b"]})},
    "tar": {"one/f.tar": (b"ab", {"tar.members": ["a", "b"]}), "two/f.tar": (b"cd", {"tar.members": ["c", "d"]}),
            "one/g.tar": (b"", {"tar.members": []}), "two/g": (b"ab", {"tar.members": MISSING})},
    "elf": {"one/f": (b"\x7fELFab", {"elf.sonames": ["a", "b"]}), "two/f": (b"\x7fELFcd", {"elf.sonames": ["c", "d"]}),
            "one/g": (b"\x7fELF", {"elf.sonames": []}), "two/g": (b"xELFab", {"elf.sonames": MISSING})},
}


def run_others(env, what):
    env.reach("others")
    table = OTHERS[what]
    one, two = ({w[4:]: F(data) for w, (data, _) in table.items() if w[:3] == top} for top in ("one", "two"))
    world, make = neighbours(one, two)
    saved = tarfile.open
    tarfile.open = lambda name=None, *a, **kw: FakeTar([chr(c) for c in world.lookup(name).data])

    def sections(f):
        f.seek(0)
        return [_elf["Dyn"]([Part(entry=Part(d_tag="DT_NEEDED"), needed=chr(c), soname=None) for c in f.read()[4:]])]
    _elf["sections"] = sections
    try:
        with active(world):
            visit(env, make, {w: want for w, (_, want) in table.items()})
    finally:
        tarfile.open = saved


def run_utf8(env, n):
    """Which contents are text."""
    whole = bytes(range(256))
    if n == 1:
        data = env.bytes("data", 1, whole)
    elif n == 2:
        data = env.bytes("data", 2, [whole.decode("latin-1"), "a\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xff\n"])
    else:
        data = env.bytes("data", 3, ["a\xe0\xe2\xed\xef\xf0\xc3", "a\x80\x9f\xa0\xbf\n", "\x80\xbf\xc0a\n"])
    text, = values(env, data, "grep.text")
    ok = utf8(data)
    env.reach("text" if ok else "binary")
    env.check(text is ok or text == ok, "wrong answer whether the content is text")


def run_grep(env, n):
    data = env.bytes("data", n, b"a\n\xc3\xa9\0 " if n < 4 else b"a\n\xc3\xa9")
    text, count, lines = values(env, data, "grep.text", "grep.linecount", "grep.lines")
    if not utf8(data):
        env.reach("binary")
        env.check(text is False, "undecodable content is called text")
        env.check(count is MISSING and lines is MISSING, "lines of undecodable content")
        return
    env.reach("text")
    env.check(text is True, "text is not recognised")
    want = [[]]
    for b in data:
        if b == 10:
            want.append([])
        else:
            want[-1].append(b)
    if not want[-1]:
        want.pop()
        if not want:
            env.reach("empty")
    else:
        env.reach("unterminated")
    env.check(count == len(want), "wrong number of lines")
    env.check(len(lines) == len(want), "wrong lines")
    for got, line in zip(lines, want):
        got = got.encode("utf-8")
        env.check(len(got) == len(line), "a line differs from the file's")
        for g, w in zip(got, line):
            env.check(g == w, "a line differs from the file's")


def run_lines_test(env, n):
    """Searching for a line."""
    env.reach("test")
    data = env.bytes("data", n, b"ab\n")
    world = World(D({"w": D({"f": F(data)})}))
    op = env.pick("op", ("=a", ":b", "~^a$", "~a.", "%a"))
    with active(world):
        ctx = context("grep.lines" + op, "-c", "sensitive")
        found = Matcher(ctx, ctx.args.tests).test(entry("f", world.stat("f", False)))
    lines = [[]]
    for b in data:
        if b == 10:
            lines.append([])
        else:
            lines[-1].append(b)
    if not lines[-1]:
        lines.pop()
    r = False
    for line in lines:
        if op in ("=a", "~^a$", "%a"):
            r = r | (len(line) == 1 and line[0] == 97)
        elif op == ":b":
            for b in line:
                r = r | (b == 98)
        else:
            for i in range(len(line) - 1):
                r = r | (line[i] == 97)
    env.check(found == r, "wrong answer to a test of the lines")


# -------------------------------------------------------------------- shebang --
def run_shebang(env, n):
    data = env.bytes("data", n, ["#a", "!#", "/ \n", "s\n", "#\n \t", "!a", "b"][:n])
    value, = values(env, data, "shebang.shebang")
    if n < 2 or not (data[0] == 35) or not (data[1] == 33):
        env.reach("no shebang")
        env.check(value is MISSING, "a shebang although the file does not begin with one")
        return
    env.reach("shebang")
    line = []
    for b in data[2:]:
        if b == 10:
            break
        line.append(b)
    while line and (line[-1] == 32 or line[-1] == 9):
        line.pop()
    env.check(value is not MISSING, "no shebang")
    env.check(len(value) == len(line), "wrong shebang")
    for v, b in zip(value, line):
        env.check(ord(v) == b, "wrong shebang")


# --------------------------------------------------------------------- hashes --
class Recorder(core.Fake):
    def __init__(self, name, table):
        self.name, self.table, self.data = name, table, b""
        real = hashlib.new(name)
        self.digest_size, self.block_size = real.digest_size, real.block_size

    def update(self, data):
        self.data = self.data + data

    def copy(self):
        r = Recorder(self.name, self.table)
        r.data = self.data
        return r

    def hexdigest(self, length=None):
        if (length is None) == (self.digest_size == 0):
            raise TypeError("hexdigest() takes one positional argument or none")
        self.table.append((self.name, self.data, length))
        return f"{len(self.table) - 1:x}"


def run_digest(env, name, size):
    env.reach("digest")
    small = size < 100
    data = env.bytes("data", size if small else 3, b"a\0\n\xff")
    if not small:
        env.reach("large")
        data = b"x" * (size - 1) + data
    table = []
    if not loader.Loader.symbolic:
        value, = values(env, data, f"{name}.{name}")
        h = hashlib.new(name, data)
        if h.digest_size:
            env.check(value == h.hexdigest(), "not the digest of the content")
        else:
            env.check(value is not MISSING and len(value) > 8 and value == h.hexdigest(len(value) // 2),
                      "not the digest of the content")
        return
    saved = hashlib.new
    own = {a: getattr(hashlib, a) for a in ALGORITHMS}

    def new(algorithm, data=b"", **kw):
        r = Recorder.__new__(Recorder)
        r.name, r.table, r.data = algorithm, table, data
        real = saved(algorithm)
        r.digest_size, r.block_size = real.digest_size, real.block_size
        return r
    hashlib.new = new
    for a in ALGORITHMS:
        setattr(hashlib, a, lambda data=b"", _a=a, **kw: new(_a, data))
    try:
        value, = values(env, data, f"{name}.{name}")
    finally:
        hashlib.new = saved
        for a, f in own.items():
            setattr(hashlib, a, f)
    env.check(value is not MISSING and len(table) > 0, "no digest")
    algorithm, got, length = table[int(value, 16)]
    env.check(algorithm == name, "another hash function is used")
    env.check(len(got) == len(data), "not the digest of the whole content")
    tail = size - 4 if not small else 0
    env.check(got[tail:] == data[tail:], "not the digest of the content")
    if not small:
        env.check(got[:tail] == data[:tail], "not the digest of the content")
    if length is not None:
        env.check(length >= 8, "the digest is too short")


# ------------------------------------------------------------------------- py --
def module(env, key):
    n = env.pick(key + "n", (1, 2))
    if n == 1:
        return env.text(key, 1, "abc")
    return env.text(key, 1, "ab") + "." + env.text(key + "s", 1, "xy")


def wrap(body, shape):
    one = ast.Constant(1)
    args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
    if shape == "flat":
        return body
    if shape == "function":
        return [ast.FunctionDef(name="f", args=args, body=body, decorator_list=[])]
    if shape == "class":
        return [ast.ClassDef(name="C", bases=[], keywords=[], body=body, decorator_list=[])]
    if shape == "if":
        return [ast.If(test=one, body=[ast.Pass()], orelse=body)]
    if shape == "try":
        return [ast.Try(body=[ast.Pass()], handlers=[ast.ExceptHandler(type=None, name=None, body=body)], orelse=[], finalbody=[])]
    if shape == "with":
        return [ast.With(items=[ast.withitem(context_expr=one, optional_vars=None)], body=body)]
    return wrap(wrap(wrap(body, "if"), "function"), "class")


def parsed(env, body, where):
    """The imports of a file with this syntax tree."""
    tree = ast.Module(body=body, type_ignores=[])
    if loader.Loader.symbolic:
        source, saved = b"# source\n", ast.parse
        ast.parse = lambda text, *a, **k: tree
    else:
        source = ast.unparse(ast.fix_missing_locations(tree)).encode()
    top = D({"x.py": F(source)})
    for part in reversed(where.split("/")[:-1]):
        top = D({part: top})
    world = World(D({"w": top}))
    try:
        with active(world):
            ctx = context()
            return attr(ctx, entry(where, world.stat(where, False)), "py.imports")
    finally:
        if loader.Loader.symbolic:
            ast.parse = saved


def run_encoding(env, kind):
    """Python files in any encoding they may declare."""
    env.reach("encoding")
    if kind.startswith("latin"):
        head = b"# -*- coding: latin-1 -*-\n"
        name = env.bytes("name", 1, b"ab\xe9\xb5")
        if kind == "latin bom":
            head = b"\xef\xbb\xbf# coding: utf-8\n"
            name = env.bytes("name", 2, ["\xc3", "\xa9\xb1"])
    else:
        head = b"\xef\xbb\xbf" if kind == "bom" else b""
        name = env.bytes("name", 2, ["\xc3", "\xa9\xb1"]) if env.flag("two") else env.bytes("name", 1, b"ab")
    data = head + b"import " + name + b"\n"
    want = name.decode("latin-1" if kind == "latin" else "utf-8")
    if not loader.Loader.symbolic:
        got, = values(env, data, "py.imports", name="f.py")
        import unicodedata
        env.check(got == [unicodedata.normalize("NFKC", want)], "wrong imports")
        return
    given, saved = [], ast.parse

    def parse(source, *a, **kw):
        given.append(source)
        return ast.Module(body=[], type_ignores=[])
    ast.parse = parse
    try:
        values(env, data, "py.imports", name="f.py")
    finally:
        ast.parse = saved
    env.check(len(given) == 1, "the file is not parsed")
    text = given[0]
    if not isinstance(text, str) and not hasattr(text, "encode"):
        env.check(len(text) == len(data) and text == data, "something else is parsed")
        return
    want = (head[3:] if "bom" in kind else head).decode() + "import " + want + "\n"
    env.check(len(text) == len(want) and text == want, "the file is not decoded as it declares")


def run_python_name(env, n):
    """Which files are Python files by their name."""
    name = env.text("name", n, "pY3" if n < 3 else ["pP", "yY", "3w"])
    dotted = "a." + name
    data = b"import os\n"
    got, = values(env, data, "py.imports", name=dotted)
    low = [fold(c) for c in name]
    r = n == 2 and (low[0] == ord("p")) & (low[1] == ord("y"))
    if r:
        env.reach("python")
        env.check(got is not MISSING and list(got) == ["os"], "wrong imports")
    else:
        env.reach("not python")
        env.check(got is MISSING, "imports of a file that is none of Python")


def run_python_shebang(env):
    line = b"#!" + env.bytes("a", 1, b"/ ") + b"pytho" + env.bytes("b", 2, ["nm", " 3\n"]) + b"\n"
    name = env.pick("name", ("f", "f.txt", "f.py"))
    saved, tree = ast.parse, ast.parse("import os\n")
    if loader.Loader.symbolic:
        ast.parse = lambda source, *a, **kw: tree
    try:
        got, = values(env, line + b"import os\n", "py.imports", name=name)
    finally:
        ast.parse = saved
    if name == "f.py" or line[8] == ord("n"):
        env.reach("python")
        env.check(got is not MISSING and list(got) == ["os"], "wrong imports")
    else:
        env.reach("not python")
        env.check(got is MISSING, "imports of a file that is none of Python")


def run_elf_magic(env):
    data = env.bytes("magic", env.pick("n", (0, 3, 4, 5)), ["\x7fE", "E\x7f", "LE", "F\n", "F\0"])
    _elf["sections"] = []
    got, = values(env, data, "elf.sonames")
    if len(data) >= 4 and data[:4] == b"\x7fELF":
        env.reach("elf")
        env.check(got is not MISSING and list(got) == [], "wrong names")
    else:
        env.reach("not elf")
        env.check(got is MISSING, "names in a file of another format")


TAR = (".tar", ".tar.gz", ".taz", ".tgz", ".tpz", ".tar.bz2", ".tb2", ".tbz", ".tbz2", ".tz2", ".tar.xz", ".txz", ".tar.lzma", ".tlz")


def run_tar_name(env, end):
    """Which files are archives by their name."""
    name = env.text("name", 1, "at") + env.text("end", len(end), [c + "x" for c in end])
    saved = tarfile.open
    tarfile.open = lambda name=None, *a, **kw: FakeTar(["a", "./b", "."])
    try:
        got, = values(env, b"", "tar.members", name=name)
    finally:
        tarfile.open = saved
    if name[1:] == end:
        env.reach("archive")
        env.check(got is not MISSING, "no members")
        same_set(env, list(got), ["a", "./b", "."], "member")
    elif not any(len(e) <= len(name) and bool(name[len(name) - len(e):] == e) for e in TAR + (".tar.lz",)):
        env.reach("no archive")
        env.check(got is MISSING, "members of what is not an archive")


def run_separators(env):
    """Characters that end a line for some, but not in text files."""
    env.reach("separator")
    c = env.text("separator", 1, "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
    count, lines = values(env, ("a" + c + "b\nc" + c).encode(), "grep.linecount", "grep.lines")
    env.check(count == 2, "wrong number of lines")
    env.check(len(lines) == 2 and lines[0] == "a" + c + "b" and lines[1] == "c" + c, "wrong lines")


def run_empty_tree(env):
    env.check(parsed(env, [], "x.py") == [], "imports of an empty file")
    env.check(parsed(env, [ast.Expr(ast.Constant("import os"))], "x.py") == [], "imports where there are none")


def run_imports(env, n, shape):
    env.reach("imports")
    if shape != "flat":
        env.reach("nested")
    body, want = [], []
    where = "p/q/x.py"
    parents = ["w", "p", "q"]
    for i in range(n):
        kind = env.pick(f"kind{i}", ("import", "import two", "import as", "from", "relative") if shape == "flat" else
                        ("import", "import two", "from"))
        if kind == "from":
            m = module(env, f"m{i}")
            body.append(ast.ImportFrom(module=m, names=[ast.alias(name="zzz", asname=None)], level=0))
            want.append([m])
        elif kind == "relative":
            env.reach("relative import")
            level = env.pick(f"level{i}", (1, 2, 3))
            m = module(env, f"m{i}")
            body.append(ast.ImportFrom(module=m, names=[ast.alias(name="zzz", asname=None)], level=level))
            package = parents[:len(parents) - level + 1]
            want.append([".".join(package[k:]) + "." + m for k in range(len(package))])
        else:
            names = [ast.alias(name=module(env, f"m{i}"), asname="zzz" if kind == "import as" else None)]
            want.append([names[0].name])
            if kind == "import two":
                env.reach("several names")
                m = module(env, f"k{i}")
                names.append(ast.alias(name=m, asname=None))
                want.append([m])
            body.append(ast.Import(names=names))
    got = parsed(env, wrap(body, shape), where)
    env.check(got is not MISSING, "no imports")
    for options in want:
        r = False
        for o in options:
            for g in got:
                r = r | (g == o)
        env.check(r, "an imported module is missing")
    for g in got:
        r = False
        for options in want:
            for o in options:
                r = r | (g == o)
        env.check(r, "a module that is not imported")
    env.check(len(got) <= len(want), "more modules than imports")


# ------------------------------------------------------------------ tar, elf --
def same_set(env, got, want, what):
    for w in want:
        r = False
        for g in got:
            r = r | (g == w)
        env.check(r, what + " is missing")
    for g in got:
        r = False
        for w in want:
            r = r | (g == w)
        env.check(r, "a wrong " + what)


class Part(core.Fake):
    def __init__(self, **values):
        self.__dict__.update(values)


class FakeTar(core.Fake):
    def __init__(self, names):
        self.members = [Part(name=n, isfile=lambda: True, isdir=lambda: False) for n in names]

    def getnames(self):
        return [m.name for m in self.members]

    def getmembers(self):
        return list(self.members)

    def __iter__(self):
        return iter(self.members)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def run_members(env, n):
    env.reach("members")
    names = [env.text(f"n{i}", 2, "a/\udc80") for i in range(n)]
    saved = tarfile.open
    opened = []

    def fake(name=None, *a, **kw):
        opened.append(name)
        return FakeTar(names)
    tarfile.open = fake
    try:
        got, = values(env, b"", "tar.members", name="f.tar")
    finally:
        tarfile.open = saved
    env.check(got is not MISSING, "no members")
    same_set(env, list(got), names, "member")


def run_sonames(env, n):
    env.reach("sonames")
    tags, names = [], []
    for i in range(n):
        kind = env.pick(f"kind{i}", ("DT_NEEDED", "DT_SONAME"))
        name = env.text(f"n{i}", 1, "ab")
        t = Part(entry=Part(d_tag=kind), needed=name, soname=name)
        if kind == "DT_SONAME":
            del t.needed
        else:
            names.append(name)
        tags.append(t)
    k = env.int("split", 0, n)
    k = env.concrete(k)
    _elf["sections"] = [object(), _elf["Dyn"](tags[:k]), object(), _elf["Dyn"](tags[k:])]
    got, = values(env, b"\x7fELF...", "elf.sonames")
    env.check(got is not MISSING, "no names")
    same_set(env, got, names, "name")
