"""C27: the metadata cache."""

import sqlite3

from symx import loader

from symx.sched import SchedWorld
from libff.find import Find
from .common import *

LABELS = ("hit", "miss", "changed", "failed", "upgrade", "crash", "other plugin", "vanished", "cleaned", "cleaned nothing",
          "collide", "locked", "programme", "long run", "searches", "value", "spelled")
BOUNDS = ("histories of up to 3 (thorough 4) of: reading an attribute of a caching plugin for either of two files, changing a "
          "file, ending the run properly or by a crash, replacing a plugin by another version, using another plugin whose "
          "name continues the first one's, removing a file, cleaning; extracted values of 10 types; file names, modification times, and which "
          "extractions fail symbolic; two runs over start directories in any two of ten spellings; databases of the SQL subset the model of sqlite3 covers")
ASSUME = ("sqlite3 behaves as its model symx/sql.py on the statements used (real sqlite3 in the native replay)",
          "every process uses a connection of its own (C39)")
BUDGET = {"quick": 200, "thorough": 3000}

CALLS = []
FAILS = {}          # (path, current state number) -> whether extraction fails
TAGS = {}


class Caching(Plugin):
    use_cache = True
    attributes = [("who", String, ""), ("version", Number, ""), ("where", String, ""), ("tag", Number, "")]

    def can_handle(self, entry):
        return True

    def cache(self, entry):
        CALLS.append((type(self).name, entry.abspath))
        if entry.status.st_dev == 7:
            raise NoData
        return [("who", type(self).name), ("version", type(self).cache_tag), ("where", entry.abspath),
                ("tag", entry.time)]

    def process(self, entry, cached):
        yield from cached


class Foo(Caching):
    cache_tag = 1


class Foo_Bar(Caching):
    cache_tag = 1


class Foobar(Caching):
    cache_tag = 1


VALUE = []


class Val(Plugin):
    """Whatever cache() returns is what process() gets."""
    use_cache = True
    cache_tag = 1
    attributes = [("type", String, ""), ("value", Number, ""), ("text", String, "")]

    def can_handle(self, entry):
        return True

    def cache(self, entry):
        CALLS.append(("val", entry.abspath))
        return VALUE[0]

    def process(self, entry, cached):
        # the type is compared through names as the text may be symbolic
        yield "type", "int" if isinstance(cached, int) else "text" if isinstance(cached, str) else type(cached).__name__
        if isinstance(cached, int):
            yield "value", cached
        elif isinstance(cached, str):
            yield "text", cached


CLASSES = {"val": Val, "foo": Foo, "foo_bar": Foo_Bar, "foobar": Foobar}


def warm():
    from . import common
    common.warm()
    ctx = Context()
    ctx.args = create_parser().parse_args([])
    ctx.global_lock = W.SeqLock()
    ctx.logger = Logger()
    ctx.logger.debug_categories = ["none"]
    reg = Registry(ctx)
    if "foo" in reg.registered_plugins:
        return
    for name, cls in CLASSES.items():
        reg.register_plugin("harness", __file__, cls)
        for a, type_cls, _ in cls.attributes:
            reg.attributes[Attribute(name, a)] = type_cls


STEPS = {
    "a": ("read", "foo", 0), "b": ("read", "foo", 1), "c": ("read", "foo_bar", 0), "d": ("read", "foobar", 0),
    "t": ("touch", 0), "n": ("new",), "k": ("crash",), "u": ("upgrade", "foo"), "v": ("upgrade", "foo_bar"),
    "x": ("vanish", 0), "z": ("clean",),
}


def histories(n):
    if n == 0:
        yield ""
        return
    for h in histories(n - 1):
        for s in STEPS:
            if s in "nkuvz" and h[-1:] and h[-1] in "nk":
                continue        # two ends of a run in a row
            if s in "xt" and "x" in h:
                continue
            yield h + s


def cases(tier):
    for h in histories(4 if tier == "thorough" else 3):
        if not set(h) & set("nkuvz") or h[-1] in "nk":
            continue
        yield ("history", "plain", h)
    for h in ("b", "nb", "zb", "tb", "xz", "bnx"):
        for names in ("surrogate", "backslash"):
            yield ("history", names, h)
    for h in ("b", "tb", "c", "bnt", "u", "ktb"):
        yield ("locked", h)
    for kind in ("int", "text", "other"):
        yield ("value", kind)
    yield ("long", 0)
    yield ("long", 1)
    yield ("spelled",)
    for mode in ("plain", "sort", "exec", "count"):
        yield ("programme", mode)
    for first in (None, "/w/one.db", "/w/two.db"):
        yield ("searches", first)


def run(env, case):
    del CALLS[:]
    globals()["run_" + case[0]](env, *case[1:])


class Run:
    """One run of the programme, as far as the cache is concerned."""

    def __init__(self):
        loader.State.current.fresh()
        self.ctx = context(cache="/w/cache.db")
        self.ctx.cache = ff_main.Cache(self.ctx)
        self.ctx.registry = Registry(self.ctx)

    def read(self, plugin, name, status):
        e = entry(name, status)
        data = {}
        for a in ("who", "version", "where", "tag"):
            v = attr(self.ctx, e, plugin + "." + a)
            if v is not MISSING:
                data[a] = v
        return data


class Sim:
    def __init__(self, env, names, world):
        self.env, self.names, self.world = env, names, world
        self.versions = {n: 1 for n in CLASSES}
        self.states = [None, None]
        self.old = [[], []]
        self.stored = {}        # (plugin, file) -> tag, in properly ended runs
        self.pending = {}
        self.n = 0
        for i in (0, 1):
            self.change(i)
        self.run = None

    def change(self, i):
        env = self.env
        tag = env.int(f"tag{self.n}", 0, 2)
        fails = env.flag(f"fails{self.n}")
        self.n += 1
        for t, f in self.old[i]:
            env.assume((tag != t) | (fails == f))
        self.old[i].append((tag, fails))
        self.states[i] = Status(mtime=tag, dev=7 if fails else 1)

    def start(self):
        for name, cls in CLASSES.items():
            cls.cache_tag = self.versions[name]
        self.run = Run()
        for name, cls in CLASSES.items():
            cls.cache_tag = self.versions[name]
            cls.sql_table_name = f"plugin_{name}_{self.versions[name]}"
        self.used = set()

    def end(self, crash=False):
        if not crash:
            self.run.ctx.cache.close()
            self.stored.update(self.pending)
        else:
            # what was read may or may not have been kept
            for k in self.pending:
                self.stored.pop(k, None)
        self.pending = {}
        self.start()

    def read(self, plugin, i):
        env = self.env
        tag, fails = self.old[i][-1]
        del CALLS[:]
        data = self.run.read(plugin, self.names[i], self.states[i])
        env.observe([plugin, i, sorted(data), len(CALLS)])
        if plugin not in self.used:
            self.used.add(plugin)
            # results of other versions of this plugin are gone
        path = "/w/" + self.names[i]
        if fails:
            env.reach("failed")
            env.check(not data, "data for a file that cannot be read")
        else:
            env.check(len(data) == 4, "data is missing")
            env.check(data["who"] == plugin, "another plugin's data")
            env.check(data["version"] == self.versions[plugin], "data of another plugin version")
            env.check(data["where"] == path, "another file's data")
            env.check(data["tag"] == tag, "data from before the change")
        known = self.stored.get((plugin, i))
        if known is not None and known[0] == self.versions[plugin]:
            if CALLS:
                env.check(no(known[1] == tag), "an unchanged file is extracted again")
                env.reach("changed")
            else:
                env.reach("hit")
        if CALLS:
            env.reach("miss")
            env.check(all(c[0] == plugin for c in CALLS), "another plugin's cache() is called")
            self.pending[(plugin, i)] = (self.versions[plugin], tag)

    def step(self, s):
        env = self.env
        kind, *a = STEPS[s]
        if kind == "read":
            if a[0] != "foo":
                env.reach("other plugin")
            self.read(*a)
        elif kind == "touch":
            self.change(a[0])
        elif kind == "new":
            self.end()
        elif kind == "crash":
            env.reach("crash")
            self.end(crash=True)
        elif kind == "upgrade":
            env.reach("upgrade")
            self.versions[a[0]] += 9
            self.end()
        elif kind == "vanish":
            env.reach("vanished")
            node = self.world.root.children[0][1]
            node.children[:] = [c for c in node.children if c[0] is not self.names[0]]
            self.gone = True
        elif kind == "clean":
            self.end()
            status = clean()
            env.check(status == 0, "cleaning fails")
            env.reach("cleaned" if self.gone else "cleaned nothing")
            if self.gone:
                for k in [k for k in self.stored if k[1] == 0]:
                    self.stored[k] = (0, None)
            self.cleaned = self.gone
            self.start()

    gone = cleaned = False


def clean():
    loader.State.current.fresh()
    return programme("--cache", "/w/cache.db", "--clean-cache")


def choose(env, kind):
    if kind == "plain":
        return ["f", "g"]
    env.reach("collide")
    if kind == "surrogate":
        return [env.text("name0", 1, "a\udc80"), "\\udc80"]
    return [env.text("name0", 2, "\\u\xe9\udcff"), "g"]


def run_history(env, kind, h):
    names = choose(env, kind)
    world = World(D({"w": D({n: F(b"") for n in names})}))
    if env.flag("dangling") if "x" not in h and "z" in h else False:
        world.root.children[0][1].children[0] = (names[0], L("nowhere"))
    with active(world):
        sim = Sim(env, names, world)
        sim.start()
        sim.read("foo", 0)
        for s in h:
            sim.step(s)
        sim.end()
        if sim.gone and not sim.cleaned:
            env.check(clean() == 0, "cleaning fails")
            env.reach("cleaned")
            sim.stored = {k: v for k, v in sim.stored.items() if k[1] != 0}
            sim.cleaned = True
            sim.start()
        was = dict(sim.stored)
        for p in ("foo", "foo_bar", "foobar"):
            if (p, 0) in was or p == "foo":
                sim.read(p, 0)
                if sim.cleaned and STEPS["x"] and h.rfind("x") < (h + "z").rfind("z") and \
                        not set(h[h.rfind("z"):] if "z" in h else "") & set("acd"):
                    env.check(len(CALLS) > 0, "data of a vanished file is kept")
        if ("foo", 1) in was:
            sim.read("foo", 1)


def run_locked(env, h):
    """Another process holds the database when results are written."""
    env.reach("locked")
    world = World(D({"w": D({n: F(b"") for n in "fg"})}))
    busy = [0, False]

    def fault(what):
        if busy[1] and busy[0] < 2:
            busy[0] += 1
            if env.flag(f"busy{busy[0]}"):
                raise sqlite3.OperationalError("database is locked")

    world.fault = fault
    with active(world):
        sim = Sim(env, "fg", world)
        sim.start()
        sim.read("foo", 0)
        for s in h:
            busy[1] = s in "nu"
            sim.step(s)
        busy[1] = True
        sim.end()
        busy[1] = False
        for k in dict(sim.stored):
            sim.read(*k)


def run_value(env, kind):
    """Anything a plugin returns comes back."""
    env.reach("value")
    value = env.int("value", -1, 1) if kind == "int" else env.text("text", env.pick("len", (0, 1, 2)), "aä\0\udc80") \
        if kind == "text" else env.pick("which", (None, [], {}, (), b"", b"\xff", 0.0, set(), [None], {"": ()}))
    VALUE[:] = [value]
    world = World(D({"w": D({"f": F(b"")})}))
    got = []
    with active(world):
        sim = Sim(env, "fg", world)
        sim.start()
        for i in range(3):
            del CALLS[:]
            e = entry("f", Status(mtime=1))
            got.append([attr(sim.run.ctx, e, "val." + a) for a in ("type", "value", "text")])
            env.check(len(CALLS) == (not i), "an unchanged file is extracted again")
            sim.end()
    env.observe([g[0] for g in got])
    name = "int" if kind == "int" else "text" if kind == "text" else type(value).__name__
    for g in got:
        env.check(g[0] is not MISSING, "no value")
        env.check(g[0] == name, "another type of value")
        for k, v in zip(("int", "text"), g[1:]):
            env.check((v is MISSING) == (kind != k), "a value of another type")
            if kind == k:
                env.check(v == value, "another value")


def run_long(env, kind):
    """Results are written during long runs, so that they survive a crash."""
    env.reach("long run")
    world = World(D({"w": D({n: F(b"") for n in "fg"})}))
    with active(world):
        sim = Sim(env, "fg", world)
        sim.start()
        sim.read("foo", 0)
        gap = env.int("gap", 0, 100)
        world.clock = world.clock + gap
        sim.read("foo", 1)
        if kind:
            sim.read("foo_bar", 1)
        sim.end()
        for k in dict(sim.stored):
            sim.read(*k)


def run_programme(env, mode):
    """Two runs of the whole programme."""
    env.reach("programme")
    argv = {"plain": ["-o", "path,foo.where,foo.tag"], "sort": ["-S", "foo.tag,path", "-o", "path,foo.where,foo.tag"],
            "exec": ["-x", "cmd", "{path}", "{foo.where}", "{foo.tag}"],
            "count": ["--count", "foo.tag"]}[mode]
    tags = [env.int("tag0", 0, 3), env.int("tag1", 0, 3), env.int("tag2", 0, 3)]
    outs = []
    for i, cached in enumerate((True, True, False)):
        world = ExecWorld(D({"w": D({"f": F(b"", mtime=tags[0]), "g": F(b"", mtime=tags[1 if i == 0 else 2])})}))
        if i:
            world.databases = store
        loader.State.current.fresh()
        del CALLS[:]
        with active(world):
            status = programme("--cache", "/w/cache.db" if cached else "/w/other.db", "foo.tag+=0", *argv)
        store = world.databases
        env.check(status == 0, "wrong status")
        outs.append((world.stdout.text(), world.started, len(CALLS)))
    env.check(outs[1][0] == outs[2][0], "the cache changes the output")
    env.check(len(outs[1][1]) == len(outs[2][1]), "the cache changes the commands")
    for a, b in zip(outs[1][1], outs[2][1]):
        env.check(len(a) == len(b), "the cache changes the commands")
        for x, y in zip(a, b):
            env.check(x == y, "the cache changes the commands")
    env.check(outs[0][2] == 2, "the first run does not read both files")
    changed = tags[1] != tags[2]
    env.check(outs[1][2] == (1 if changed else 0), "an unchanged file is read again, or a changed one is not")
    env.observe([o[0] for o in outs])


def run_spelled(env):
    """Two runs over start directories written in any way; files at different places never share a value."""
    env.reach("spelled")
    tag = env.int("tag", 0, 3)
    tree = lambda: {"k": D({"f": F(b"", mtime=tag)})}
    store, before = None, None
    for i in range(2):
        world, root, top, make = spelled(env, tree, tree, ExecWorld, f"start directory {i}")
        if store is not None:
            world.databases = store
        loader.State.current.fresh()
        del CALLS[:]
        with active(world):
            status = programme("--cache", "/w/cache.db", "-D", root, "-o", "foo.tag,foo.where", "relpath=k/f")
        store = world.databases
        where = top.rstrip("/") + "/k/f"
        env.observe(world.stdout.text())
        env.check(status == 0, "wrong status")
        lines = world.stdout.text().splitlines()
        env.check(len(lines) == 1, "wrong number of results")
        env.check(lines[0] == str(tag.__index__()) + " " + where, "the value of another file, or an outdated one")
        env.check(len(CALLS) == (0 if where == before else 1), "an unchanged file is read again, or another file's value is used")
        before = where


def run_searches(env, first):
    """Several searches in the same process, each with a cache of its own or without."""
    env.reach("searches")
    tags = [env.int(f"tag{i}", 0, 3) for i in range(3)]
    caches = (first, env.pick("second", (None, "/w/one.db", "/w/two.db")), env.pick("third", (None, "/w/one.db", "/w/two.db")))
    seen, store = {}, None
    loader.State.current.fresh()
    for tag, cache in zip(tags, caches):
        del CALLS[:]
        with SchedWorld(D({"w": D({"f": F(b"", mtime=tag)})}), env) as world:
            if store is not None:
                world.databases = store
            got = list(Find(["foo.tag+=0"], output=["path", "foo.where", "foo.tag"], jobs=1, cache=cache))
        store = getattr(world, "databases", store)
        env.check(len(got) == 1 and got[0]["path"] == "f" and got[0]["foo.where"] == "/w/f", "wrong results")
        env.check(got[0]["foo.tag"] == tag, "an outdated value")
        known = cache is not None and cache in seen and bool(seen[cache] == tag)
        env.check(not known or not CALLS, "an unchanged file is read again")
        if cache is not None:
            seen[cache] = tag
