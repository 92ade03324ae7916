"""Imports /repo's code: instrumented for the symbolic run, plain for the native replay.  Nothing is
read from or written to byte-code caches, so every run works on the current source."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("SX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = os.path.join(VERIF, "props")

optimize = 1


class Loader(importlib.machinery.SourceFileLoader):
    symbolic = False

    def get_code(self, fullname):
        path = self.path
        with real_open(path, "rb") as f:
            data = f.read()
        return self.source_to_code(data, path)

    def source_to_code(self, data, path, **kw):
        source = importlib.util.decode_source(data)
        if Loader.symbolic:
            from . import instr
            return instr.compile_source(source, path, optimize)
        return compile(source, path, "exec", dont_inherit=True, optimize=optimize)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "libff" or name.startswith("libff."):
            base = os.path.join(REPO, *name.split("."))
        elif name == "props" or name.startswith("props."):
            base = os.path.join(VERIF, *name.split("."))
        else:
            return None
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(name, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=Loader(name, base + ".py"))
        if os.path.isdir(base) and name == "props":
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


real_open = open
_orig_spec = importlib.util.spec_from_file_location


def _spec_from_file_location(name, location=None, *, loader=None, **kw):
    """Plugin files are loaded with this function; route those of /repo through Loader."""
    if loader is None and location is not None and \
            os.path.realpath(location).startswith(os.path.realpath(REPO) + os.sep):
        loader = Loader(name, os.fspath(location))
    return _orig_spec(name, location, loader=loader, **kw)


def install(symbolic, opt=1):
    global optimize
    optimize = opt
    Loader.symbolic = symbolic
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    importlib.util.spec_from_file_location = _spec_from_file_location


# ---------------------------------------------------------- state of libff --
_CONT = (dict, list, set)


class State:
    """Snapshot of the mutable module- and class-level state of the loaded repository code."""

    current = None

    def __init__(self):
        State.current = self
        self.holders = []       # (object, {attribute: value})
        self.containers = {}    # id -> (container, copy)
        seen = set()
        for name, mod in list(sys.modules.items()):
            f = getattr(mod, "__file__", None)
            if isinstance(mod, types.ModuleType) and f and f.startswith(REPO + os.sep):
                self._holder(mod, seen)
        for cls in list(self._plugin_classes()):
            self._holder(cls, seen)

    @staticmethod
    def _plugin_classes():
        reg = sys.modules.get("libff.registry")
        if reg is not None:
            yield from reg.Registry.registered_plugins.values()
            yield from reg.Registry.registered_types

    def _holder(self, obj, seen):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        d = {}
        for k, v in list(vars(obj).items()):
            if k in ("__builtins__", "__dict__", "__weakref__", "__doc__", "__module__",
                     "__annotations__", "__abstractmethods__", "_abc_impl", "__slots__"):
                continue
            d[k] = v
            self._container(v)
            f = getattr(v, "__func__", v)
            if isinstance(f, types.FunctionType):
                for x in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                    self._container(x)
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("libff"):
                self._holder(v, seen)
            elif hasattr(v, "__dict__") and type(v).__module__.startswith("libff") and \
                    not isinstance(v, types.ModuleType) and not isinstance(v, type):
                self._instance(v, seen)
        self.holders.append((obj, d, dict(vars(obj))))

    def _instance(self, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        d = dict(vars(v))
        for x in d.values():
            self._container(x)
        self.holders.append((v, d, dict(d)))

    def _container(self, v):
        if type(v) in _CONT and id(v) not in self.containers:
            self.containers[id(v)] = (v, type(v)(v))
            for x in (v.values() if type(v) is dict else v):
                self._container(x)

    def restore(self):
        """Must run while no engine is active: comparisons may meet left-over symbolic values."""
        for v, copy in self.containers.values():
            try:
                if v == copy and (type(v) is not list or len(v) < 50):
                    if type(v) is not dict or list(v) == list(copy):
                        continue
            except Exception:
                pass
            if type(v) is list:
                v[:] = copy
            else:
                v.clear()
                v.update(copy)
        for obj, d, full in self.holders:
            cur = vars(obj)
            try:
                if cur == full:
                    continue
            except Exception:
                pass
            for k, v in d.items():
                if cur.get(k, State) is not v:
                    try:
                        setattr(obj, k, v)
                    except (AttributeError, TypeError):
                        pass
            if len(cur) > len(d):
                for k in list(cur):
                    if k not in d and not k.startswith("__"):
                        try:
                            delattr(obj, k)
                        except (AttributeError, TypeError):
                            pass

    def fresh(self):
        """The same in the middle of a path (a new process): compares by identity only."""
        for v, copy in self.containers.values():
            if type(v) is dict:
                same = len(v) == len(copy) and all(
                    a is b and v[a] is copy[b] for a, b in zip(v, copy))
            else:
                same = len(v) == len(copy) and all(a is b for a, b in zip(v, copy))
            if same:
                continue
            if type(v) is list:
                v[:] = copy
            else:
                v.clear()
                v.update(copy)
        for obj, d, full in self.holders:
            cur = vars(obj)
            for k in [k for k in cur if k not in full and not k.startswith("__")]:
                delattr(obj, k)
            for k, v in d.items():
                if cur.get(k, State) is not v:
                    setattr(obj, k, v)
