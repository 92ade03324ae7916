"""Shared set-up for the property harnesses."""

import contextlib
import datetime
import errno
import os
import sys
import time

from symx import core
from symx import world as W
from symx.world import D, F, L, World, active

import libff
from libff import exceptions as X
from libff import main as ff_main
from libff.arguments import create_parser
from libff.attribute import Attribute
from libff.cache import NullCache
from libff.context import Context
from libff.entry import Entry, StartDirectory
from libff.filter import Excluder, Matcher
from libff.logger import Logger
from libff.plugin import *
from libff.registry import Registry



class Probe(Plugin):
    """A plugin as a user may write it, with one attribute of every type; the values are set by
    the harness, per path."""

    cache_tag = 1
    values = {}
    attributes = [
        ("num", Number, ""), ("num2", Number, ""), ("len", Size, ""), ("dur", Duration, ""),
        ("when", Time, ""), ("flag", Boolean, ""), ("str", String, ""), ("text", String, ""),
        ("list", ListOfStrings, ""), ("loc", Path, ""), ("bits", Mode, ""), ("kind", FileType, ""),
    ]

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        yield from self.values.get(entry.path, {}).items()


def warm():
    """Load all plugins once; the loaded state is what every run starts from."""
    if Registry.registered_plugins:
        return
    ctx = Context()
    ctx.args = create_parser().parse_args([])
    ctx.global_lock = W.SeqLock()
    ctx.logger = Logger()
    ctx.logger.debug_categories = ["none"]
    reg = Registry(ctx)
    reg.register_plugin("harness", __file__, Probe)
    for name, type_cls, _ in Probe.attributes:
        reg.attributes[Attribute("probe", name)] = type_cls


_parsed = {}


def arguments(*argv, **over):
    """The namespace the real command line parser produces, with overrides."""
    if argv not in _parsed:
        with active(None):
            _parsed[argv] = create_parser().parse_args(list(argv))
    args = type(_parsed[argv])()
    for k, v in _parsed[argv].items():
        args[k] = v.copy() if type(v) in (list, set, dict) else v
    over.setdefault("jobs", 1)
    over.setdefault("cache", None)
    for k, v in over.items():
        args[k] = v
    return args


def context(*argv, **over):
    """A Context set up as the programme does it (a World must be active)."""
    ctx = Context()
    ctx.args = arguments(*argv, **over)
    ctx.setup()
    ctx.logger = Logger()
    ctx.logger.debug_categories = ["none"]
    ctx.cache = NullCache(ctx)
    ctx.registry = Registry(ctx)
    return ctx


Status = W.Stat


class StubStart(core.Fake):
    """Start directory without a file system behind it."""

    def __init__(self, root=".", absroot="/w", device=1):
        self.root = root
        self.absroot = absroot
        self.device = device


def entry(relpath="f", status=None, root=".", absroot="/w", device=1, ignore_paths=None):
    return Entry(StubStart(root, absroot, device), relpath, status or Status(),
                 ignore_paths)


# a start directory other than the current one, as it may be written, and its absolute path
SPELLINGS = {"s": "/w/s", "./s": "/w/s", "/w/s": "/w/s", "../w/s": "/w/s", "/w/t/../s": "/w/s", "/l": "/l", "../l": "/l", ".": "/w/s",
             "..": "/w/s", "/": "/"}


def spelled(env, sub, decoy, cls=None, label="start directory"):
    """A start directory in any spelling. It holds what sub() returns, and the places it could be mistaken for hold
    what decoy() returns (both are dictionaries). Returns the world, the path as written, the absolute path, and a
    function that makes the entry for a relative path."""
    root = env.pick(label, tuple(SPELLINGS))
    top = SPELLINGS[root]
    if root == "/":
        tree = {**sub(), "w": D({**decoy(), "s": D(decoy())})}
    else:
        tree = {**decoy(), "s": D(decoy()), "l": L("/w/s"),
                "w": D({**decoy(), "t": D(decoy()), "s": D({**sub(), "x": D(decoy())})})}
    world = (cls or World)(D(tree))
    world.cwd = {".": "/w/s", "..": "/w/s/x"}.get(root, "/w")

    def make(relpath, follow=False):
        return entry(relpath, world.stat(top.rstrip("/") + "/" + relpath, follow), root=root, absroot=top)
    return world, root, top, make


def neighbours(one, two, cls=World):
    """Two start directories on different devices, whose files have the same inode numbers and times. Returns the world and a
    function that makes the entry for a path."""
    for dev, nodes in ((1, one), (2, two)):
        for i, node in enumerate(nodes.values()):
            node.st.st_ino, node.st.st_dev = 50 + i, dev
    world = cls(D({"w": D({"one": D(one, dev=1), "two": D(two, dev=2)})}))

    def make(where):
        top, name = where.split("/", 1)
        return entry(name, world.stat("/w/" + where, False), root=top, absroot="/w/" + top, device=1 if top == "one" else 2)
    return world, make


def visit(env, make, table, n=3):
    """What is reported about an entry does not depend on which ones were examined before."""
    ctx = context()
    for i in range(n):
        where = env.pick(f"entry {i}", tuple(table))
        e = make(where)
        for a, want in table[where].items():
            got = attr(ctx, e, a)
            if isinstance(want, list) and got is not MISSING:
                got = sorted(got)
            env.check(got is want if want is MISSING else got is not MISSING and got == want, a + " depends on the entries examined before")


def probe(status=None, relpath="f", **values):
    """An entry with the given Probe values."""
    e = entry(relpath, status)
    Probe.values[e.path] = values
    return e


def programme(*argv):
    """Run the whole programme in the active World, with one worker and without a cache; returns
    its exit status."""
    saved = sys.argv
    sys.argv = ["ff", "-j", "1", "--no-cache"] + list(argv)
    try:
        ff_main.Main().loop()
    except SystemExit as exc:
        return exc.code or 0
    finally:
        sys.argv = saved
    return 0


def printed(end="\n"):
    """The records the programme printed."""
    out = W.CUR.stdout.text()
    recs = out.split(end)
    if recs[-1] != "":
        raise AssertionError("unterminated output")
    return recs[:-1]


class ExecWorld(World):
    """Records the commands that are started.  outcome(n, args) decides what happens to the n-th
    one: an exit status, or an errno as a negative number if it cannot be started, or -1000 minus the
    signal that ends it."""

    def __init__(self, root, outcome=None):
        super().__init__(root)
        self.started = []
        self.refused = []
        self.outcome = outcome or (lambda n, args: 0)

    def popen(self, args, **kw):
        if isinstance(args, str):
            raise AssertionError("a command is started through a shell")
        if kw.get("shell"):
            raise AssertionError("a command is started through a shell")
        args = list(args)
        for a in args:
            if not isinstance(a, (str, bytes)):
                raise TypeError("expected str, bytes or os.PathLike object")
        r = self.outcome(len(self.started) + len(self.refused), args)
        if type(r) is int and r < -1000:
            r += 1000
        elif r < 0:
            self.refused.append(args)
            raise OSError(-r, os.strerror(-r), args[0])
        self.started.append(args)
        return W.FakePopen(args, r)


MISSING = "<no value>"


def attr(ctx, e, name):
    """The value of an attribute of an entry, or MISSING."""
    a = ctx.registry.setup_attribute(name)
    try:
        return ctx.registry.get_attribute_and_type(e, a)[0]
    except KeyError:
        return MISSING


class StubEntry(core.Fake):
    """Minimal stand-in for the entry argument of Type.test()."""

    def __init__(self, name="", is_dir=False):
        self.name = name
        self._dir = is_dir

    def is_dir(self):
        return self._dir


# ------------------------------------------------------------------- oracles --
# A zone whose clocks are one hour ahead from the last Sunday of March to that of October.
SUMMER = "VRF-05:30VRS-06:30,M3.5.0/2,M10.5.0/3"
SUMMERS = []
for _y in range(2022, 2028):
    _p = []
    for _m, _h in ((3, 2 * 3600 - 19800), (10, 3 * 3600 - 23400)):
        _d = datetime.date(_y, _m, 31)
        _p.append((_d.toordinal() - (_d.weekday() + 1) % 7 - 719163) * 86400 + _h)
    SUMMERS.append(tuple(_p))


@contextlib.contextmanager
def summer(env):
    """Local time is one that changes."""
    os.environ["TZ"] = SUMMER
    time.tzset()
    if env.symbolic:
        from symx import dt
        dt.DST = SUMMERS
    try:
        yield
    finally:
        os.environ["TZ"] = "VRF-05:30"
        time.tzset()
        if env.symbolic:
            dt.DST = ()


def is_summer(utc):
    r = False
    for a, b in SUMMERS:
        r = r | (utc >= a) & (utc < b)
    return r


def fold(c):
    """Code of a character with the case of A-Z and Ä removed."""
    return ord(c) + 32 * (((c >= "A") & (c <= "Z")) | (c == "\xc4"))


def no(cond):
    return cond == False        # noqa: E712  (works for bool and symbolic conditions)


def among(c, chars):
    r = False
    for x in chars:
        r = r | (c == x)
    return r


def nfa(items, text, anchored=(False, False)):
    """Does a sequence of items match text?  An item is (predicate, quantifier) with quantifier
    one of "1", "?", "*", "+"; the predicate takes a character.  Returns a condition; never
    branches on the text."""
    n = len(text)
    cs = [text[i] for i in range(n)]
    reach = [True] + [not anchored[0]] * n
    for pred, q in items:
        ok = [pred(c) for c in cs]
        one = [False] * (n + 1)
        for i in range(n):
            src = reach[i] | (one[i] if q in "*+" else False)
            one[i + 1] = src & ok[i]
        if q in "?*":
            reach = [a | b for a, b in zip(reach, one)]
        else:
            reach = one
    if anchored[1]:
        return reach[n]
    r = False
    for x in reach:
        r = r | x
    return r


def parse_json(text):
    """Parse a JSON text (ASCII, as the programme writes it), symbolic characters included.
    Objects become dicts, so keys must be concrete enough to be told apart."""
    cs = list(text)
    pos = 0

    def blank():
        nonlocal pos
        while pos < len(cs) and (cs[pos] in " \n\t\r"):
            pos += 1

    def bad():
        raise AssertionError("this is not JSON")

    def need(c):
        nonlocal pos
        if pos >= len(cs) or cs[pos] != c:
            bad()
        pos += 1

    def at(c):
        return pos < len(cs) and cs[pos] == c

    def string():
        nonlocal pos
        need('"')
        out = ""
        while True:
            if pos >= len(cs):
                bad()
            c = cs[pos]
            pos += 1
            if c == '"':
                return out
            if c < " ":
                bad()
            if c == "\\":
                e = cs[pos] if pos < len(cs) else bad()
                pos += 1
                if e == "u":
                    c = chr(int("".join(cs[pos:pos + 4]), 16))
                    pos += 4
                    if "\ud800" <= c < "\udc00" and "".join(cs[pos:pos + 3]) == "\\ud":
                        d = chr(int("".join(cs[pos + 2:pos + 6]), 16))
                        if "\udc00" <= d:
                            c = chr(0x10000 + (ord(c) - 0xd800) * 0x400 + ord(d) - 0xdc00)
                            pos += 6
                else:
                    c = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "/": "/", '"': '"',
                         "\\": "\\"}.get(e)
                    if c is None:
                        bad()
            out += c

    def value():
        nonlocal pos
        blank()
        if at('"'):
            return string()
        if at("["):
            pos += 1
            out = []
            blank()
            if not at("]"):
                while True:
                    out.append(value())
                    blank()
                    if not at(","):
                        break
                    pos += 1
            need("]")
            return out
        if at("{"):
            pos += 1
            out = {}
            blank()
            if not at("}"):
                while True:
                    blank()
                    k = string()
                    blank()
                    need(":")
                    if k in out:
                        raise AssertionError("a key occurs twice")
                    out[k] = value()
                    blank()
                    if not at(","):
                        break
                    pos += 1
            need("}")
            return out
        for word, v in (("true", True), ("false", False), ("null", None)):
            if "".join(cs[pos:pos + len(word)]) == word:
                pos += len(word)
                return v
        start = pos
        while pos < len(cs) and cs[pos] in "0123456789-+.eE":
            pos += 1
        num = "".join(cs[start:pos])
        if "." in num or "e" in num or "E" in num:
            return float(num)
        if num == "":
            bad()
        return int(num)

    r = value()
    blank()
    if pos != len(cs):
        bad()
    return r


__all__ = [n for n in globals() if not n.startswith("_")]
