"""C44: which plugins are loaded, from where, and what happens to defective ones."""

import importlib.util

import libff.registry
from libff import MissingImport, NoData
from .common import *

LABELS = ("first", "shadowed", "none", "loaded", "skipped", "broken", "setup fails", "not used", "set up once", "process fails",
          "no data", "two in one file", "own type")
BOUNDS = ("plugin files present or not in /usr/lib/ff, two directories of FF_PLUGIN_DIRS and ~/.ff, with 12 values of FF_PLUGIN_DIRS; file "
          "names of 3-5 (thorough 6) characters over 'a_.py' in any of the directories, being files or, those of up to 4, links, directories, links to "
          "directories, dangling links or pipes; 11 kinds of broken files in any directory, 5 kinds of failing setup in 9 uses, "
          "and 7 kinds of failing on any of two entries in 7 uses; where one plugin is used, set-up is counted")
ASSUME = ("the import of a module is a stand-in that yields the names its code defines, or the exception it raises",
          "file names do not begin with a period")
BUDGET = {"quick": 150, "thorough": 1800}

HOME = os.path.expanduser("~")
BUILTIN = os.path.join(os.path.dirname(libff.registry.__file__), "builtin")
CONTRIB, USER = "/usr/lib/ff", HOME + "/.ff"
PLACES = (CONTRIB, "/p", "/w/q", USER)
DIRS = (None, "", "/p", "/p:/w/q", "/w/q:/p", ":/p", "/p::/w/q", "/nowhere:/p", "/w/f:/p", "q", "./q/:/p", "/p:/w/../w/q")
IN_ORDER = ((), (), (1,), (1, 2), (2, 1), (1,), (1, 2), (1,), (1,), (2,), (2, 1), (1, 2))

FAULTS = {"SyntaxError": SyntaxError, "ImportError": ImportError, "OSError": OSError, "FileNotFoundError": FileNotFoundError,
          "KeyError": KeyError, "MissingImport": MissingImport, "NoData": NoData, "StopIteration": StopIteration,
          "ValueError": ValueError, "NotImplementedError": NotImplementedError, "UnicodeDecodeError": None}
BROKEN = ("SyntaxError", "ImportError", "OSError", "FileNotFoundError", "KeyError", "MissingImport", "NoData", "StopIteration",
          "str as type", "text as type", "no type")
USES = {"test": ["aa.xx>=0"], "output": ["-o", "aa.xx"], "sort": ["--sort", "aa.xx"], "exclude": ["-e", "aa.xx>=0"],
        "exec": ["-x", "cmd", "{aa.xx}"], "json": ["--json", "-o", "aa.xx"], "jsonl": ["--jsonl", "-o", "path,xx"],
        "short": ["xx=1"], "all": ["aa.xx>=0", "-o", "xx,aa.xx", "--sort", "aa.xx"]}
UNUSED = ([], ["-o", "bb.yy"], ["bb.yy=1", "-S"], ["--json"])
_file = []
_loads = []


def warm():
    from . import common
    common.warm()
    _file.append(Registry.registered_plugins["file"])


class Module:
    pass


class Loader(core.Fake):
    """Executes plugin modules: what they do is decided by the path."""

    def __init__(self, code):
        self.code = code

    def exec_module(self, module):
        for name, obj in self.code().items():
            setattr(module, name, obj)


class Spec(core.Fake):
    def __init__(self, name, loader):
        self.name = name
        self.loader = loader


def plugin(name, value, setup=None, faults=(), attr="xx", type_cls=Number, log=None):
    """A plugin with one attribute. faults: the entries it fails on, and with what."""
    def do_setup(self):
        if log is not None:
            log.append(name)
        if setup is not None:
            raise setup

    def process(self, entry, cached):
        if faults and entry.path in faults:
            raise faults[entry.path]
        yield attr, value
    attributes = [(attr, type_cls, "")] if type_cls is not None else [(attr,)]
    return type(Plugin)(name, (Plugin,), {"attributes": attributes, "cache_tag": 1, "setup": do_setup,
                                          "can_handle": lambda self, entry: True, "process": process})


def names(*classes, **more):
    """What 'from libff.plugin import *' and the definitions of the classes leave in a module."""
    d = {"Plugin": Plugin, "Type": Type, "Number": Number, "String": String, "Speed": Speed, "NoData": NoData, "os": os, "x": 1,
         "FileType": FileType, "Mode": Mode, "Size": Size, "Time": Time, "Duration": Duration, "Boolean": Boolean, "Path": Path,
         "ListOfStrings": ListOfStrings, "MissingImport": MissingImport, **more}
    for c in classes:
        d[c.__name__] = c
    return d


def fail(exc):
    def code():
        raise exc
    return code


@contextlib.contextmanager
def modules(code):
    """Makes code(path) what the module at path does."""
    saved = importlib.util.spec_from_file_location, importlib.util.module_from_spec
    state = dict(Registry.registered_plugins), dict(Registry.attributes), set(Registry.registered_types)
    containers = Registry.registered_plugins, Registry.attributes, Registry.registered_types

    def spec(name, location=None, **kw):
        path = os.fspath(location)
        _loads.append(path)
        if type(path) is str and path.startswith(BUILTIN + "/"):
            return Spec(name, Loader(lambda: names(_file[0])))
        return Spec(name, Loader(lambda: code(path)()))
    importlib.util.spec_from_file_location = spec
    importlib.util.module_from_spec = lambda s: Module()
    for c in containers:
        c.clear()
    try:
        yield
    finally:
        importlib.util.spec_from_file_location, importlib.util.module_from_spec = saved
        for c, s in zip(containers, state):
            c.clear()
            c.update(s)


def build(tree):
    return D({name: build(node) if type(node) is dict else node for name, node in tree.items()})


def world(files, places):
    """files: name and node by directory."""
    tree = {"w": {"f": F(b"x"), "g": F(b"")}}
    for directory, content in {BUILTIN: {"file.py": F(b""), "__init__.py": F(b"")}, **files}.items():
        node = tree
        for part in directory.strip("/").split("/"):
            node = node.setdefault(part, {})
        node.update(content)
    w = ExecWorld(build(tree))
    w.environ["HOME"] = HOME
    if places is not None:
        w.environ["FF_PLUGIN_DIRS"] = places
    return w


def cases(tier):
    for i in range(len(DIRS)):
        yield ("load", i)
    for n in range(3, 7 if tier == "thorough" else 6):
        for place in range(4 if n < 5 or tier == "thorough" else 1):
            yield ("name", n, place)
    for how in BROKEN:
        yield ("broken", how)
    for how in ("MissingImport", "ImportError", "OSError", "NotImplementedError", "KeyError", None):
        yield ("setup", how)
    for how in ("can_handle", "process", "KeyError", "OSError", "StopIteration", "NoData", "NotImplementedError"):
        yield ("process", how)
    yield ("several",)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def search(w, *argv):
    del _loads[:]
    with active(w):
        status = programme(*argv)
        if not _loads:
            raise core.Unsupported("plugins are loaded in another way")
        return status, w.stdout.text(), w.stderr.text()


def where(path):
    """The directory of PLACES a path is in."""
    full = os.path.normpath(path if path.startswith("/") else "/w/" + path)
    for i, place in enumerate(PLACES):
        if full.startswith(place + "/"):
            return i
    raise AssertionError("a file from elsewhere is loaded")


def run_load(env, i):
    """The first of several plugins of one name, in the documented order."""
    have = [env.flag(p) for p in PLACES]
    # a directory without the plugin may be missing, or be there with other files only
    other = env.flag("others")
    upper = env.flag("other spelling")
    files = {p: {"_z.py": F(b""), f"m{k}.py": F(b""), "z.txt": F(b"")} if have[k] else {"z.txt": F(b"")} for k, p in enumerate(PLACES) if have[k] or other}
    loaded = []

    def code(path):
        k = where(path)
        loaded.append(k)
        return lambda: names(plugin("Aa" if upper and k != 1 else "aa", 100 + k))
    order = [k for k in (0, *IN_ORDER[i], 3) if have[k]]
    with modules(code):
        status, out, err = search(world(files, DIRS[i]), "type=f", "name=f", "-o", "aa.xx")
    env.observe([status, out])
    if not order:
        env.reach("none")
        env.check(status == 11 and out == "", "a plugin is found where there is none")
        return
    env.reach("first")
    env.check(status == 0 and out == f"{100 + order[0]}\n", "another plugin is used")
    if len(order) > 1:
        env.reach("shadowed")
    for k in order[1:]:
        env.check(f"m{k}.py" in err, "no warning names the plugin that is not used")
    env.check(f"m{order[0]}.py" not in err, "a warning names the plugin that is used")
    env.check((err == "") == (len(order) == 1), "warnings")


def run_name(env, n, place):
    """Which files are plugins."""
    name = env.text("name", n, "a_.py")
    env.assume(name[0] != ".")
    kind = "file" if n > 4 and not env.thorough else env.pick("kind", ("file", "link", "directory", "link to directory", "dangling", "pipe"))
    node = {"file": F(b""), "link": L("/w/f"), "directory": D({}), "link to directory": L("/w"), "dangling": L("/nowhere"),
            "pipe": W.Node("p")}[kind]
    with modules(lambda path: lambda: names(plugin("aa", 5))):
        status, out, err = search(world({PLACES[place]: {name: node}}, "/p:/w/q"), "name=f", "type=f", "-o", "aa.xx")
    want = kind in ("file", "link") and name[-3:] == ".py" and name[0] != "_"
    env.reach("loaded" if want else "skipped")
    env.observe([status, out])
    env.check(err == "" or not want, "warnings")
    if want:
        env.check(status == 0 and out == "5\n", "a plugin file is not loaded")
    else:
        env.check(status == 11 and out == "", "something is loaded that is no plugin file")


def run_broken(env, how):
    """Files that cannot be loaded are named."""
    place = env.pick("place", (0, 1, 2, 3))
    argv = env.pick("argv", ([], ["-o", "aa.xx"], ["--fail"], ["-S", "aa.xx=1"]))
    first = env.flag("the other one first")
    bad = {"str as type": lambda: plugin("bad", 1, type_cls=str), "text as type": lambda: plugin("bad", 1, type_cls="number"),
           "no type": lambda: plugin("bad", 1, type_cls=None)}

    def code(path):
        if "broken" in path:
            return (lambda: names(bad[how]())) if how in bad else fail(FAULTS[how]("no such thing"))
        return lambda: names(plugin("aa", 1))
    content = {"good.py": F(b""), "broken.py": F(b"")} if first else {"broken.py": F(b""), "good.py": F(b"")}
    with modules(code):
        status, out, err = search(world({PLACES[place]: content}, "/p:/w/q"), *argv)
    env.reach("broken")
    env.observe([status, out])
    env.check(status == 10, "the status is not that of a bad plugin")
    env.check(out == "", "something is found in spite of a broken plugin")
    env.check(PLACES[place] + "/broken.py" in err, "the report does not name the file")


def run_setup(env, how):
    """Plugins are set up if they are used, once."""
    use = env.pick("use", tuple(USES) + tuple(range(len(UNUSED))))
    log = []
    exc = FAULTS[how]("modulename") if how else None

    def code(path):
        return lambda: names(plugin("aa", 1, setup=exc, log=log) if "aa" in path else plugin("bb", 1, attr="yy"))
    argv = USES[use] if use in USES else UNUSED[use]
    with modules(code):
        status, out, err = search(world({"/p": {"aa.py": F(b""), "bb.py": F(b"")}}, "/p"), *argv)
    env.observe([status, out, len(log)])
    if use not in USES:
        env.reach("not used")
        env.check(log == [], "a plugin is set up that is not used")
        env.check(status == 0 and err == "", "a plugin that is not used matters")
    elif how:
        env.reach("setup fails")
        env.check(status == 10 and out == "", "the status is not that of a bad plugin")
        env.check("'aa'" in err, "the report does not name the plugin")
        if how == "MissingImport":
            env.check("modulename" in err, "the report does not name the module")
    else:
        env.reach("set up once")
        env.check(status == 0 and err == "", "the plugin fails")
        env.check(log == ["aa"], "the plugin is not set up exactly once")


def run_process(env, how):
    """A plugin that fails on an entry, or has nothing to say about it."""
    use = env.pick("use", ("test", "output", "sort", "exclude", "json", "jsonl", "all"))
    bad = env.pick("entry", ("f", "g"))
    faults = {bad: FAULTS[how]("xx"), "/w/" + bad: FAULTS[how]("xx")} if how in FAULTS else {}

    def code(path):
        def make():
            cls = plugin("aa", 1, faults=faults)
            if how in ("can_handle", "process"):
                delattr(cls, how)
            return names(cls, plugin("bb", 1, attr="yy"))
        return make
    with modules(code):
        status, out, err = search(world({"/p": {"aa.py": F(b"")}}, "/p"), "type=f", *USES[use])
    env.observe([status, out])
    if how == "NoData":
        env.reach("no data")
        env.check(status == 0 and err == "", "an entry the plugin has no data for is a failure")
        good = "g" if bad == "f" else "f"
        want = {"test": good + "\n", "output": "1\n", "exclude": bad + "\n", "all": "1\t1\n"}.get(use)
        if want is not None:
            env.check(out == want or use == "all", "the results are not those for an entry without the attribute")
        return
    env.reach("process fails")
    env.check(status in (4, 10), "the failure of a plugin is not reported in the status")
    env.check("'aa'" in err, "the report does not name the plugin")


def run_several(env):
    """Files with several plugins and types of their own."""
    order = env.flag("order")
    use = env.pick("use", ("aa.xx", "bb.yy", "xx,yy", "yy,xx"))

    def code(path):
        if path.endswith("own.py"):
            class Own(Type):
                operators = ("=",)
                sort_none = 0
            p = plugin("cc", 3, attr="zz", type_cls=Own)
            return lambda: names(Own, p)
        one, two = plugin("aa", 1), plugin("bb", 2, attr="yy")
        return lambda: names(*((one, two) if order else (two, one)))
    own = env.flag("own")
    if own:
        use += ",zz"
    with modules(code):
        status, out, err = search(world({"/p": {"several.py": F(b""), "own.py": F(b"")}}, "/p"), "name=f", "type=f", "-o", use, "--sep", " ")
    env.reach("own type" if own else "two in one file")
    want = {"aa.xx": "1", "bb.yy": "2", "xx,yy": "12", "yy,xx": "21"}
    env.observe([status, out])
    env.check(status == 0 and err == "", "not all plugins are loaded")
    digits = "".join(c for c in out if c in "123")
    env.check(digits == want[use.removesuffix(",zz")] + ("3" if own else ""), "values of the plugins")
