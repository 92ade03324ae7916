"""C18: sorting."""

from .common import *

LABELS = ("less", "equal", "missing", "reverse", "two keys", "three keys", "default", "path")
BOUNDS = ("three (thorough four) entries sorted by any attribute type (numbers, sizes, durations, times, booleans, "
          "strings, paths, modes, file types, lists and sets of strings) with values free within small domains "
          "(numbers 0 to 3, text of up to 2 characters of both cases, dots and slashes) or missing, forwards "
          "and reversed; every pair of two attribute types and two triples with domains of two values; paths of 4 characters with "
          "dots and slashes; the default sort by "
          "path with free names on two levels; also through the Python interface")
ASSUME = ("list attributes are compared element by element; sets of strings count as sorted lists; the "
          "letters in them are lower case",)
BUDGET = {"quick": 150, "thorough": 2400}

ATTRS = ("num", "len", "dur", "when", "flag", "str", "loc", "bits", "kind", "list", "set")


def cases(tier):
    deep = tier == "thorough"
    for a in ATTRS:
        for rev in (False, True):
            yield ("one", a, rev, 4 if deep else 3)
    for a in ATTRS:
        for b in ATTRS:
            if a != b and (deep or ATTRS.index(a) % 2 != ATTRS.index(b) % 2):
                yield ("two", a, b, 3)
    yield ("three", "flag", "str", "num", 3)
    yield ("three", "num", "kind", "loc", 3)
    for rev in (False, True):
        yield ("hidden", rev)
    for rev in (False, True):
        for opt in ("-S", "-Spath", "--sort=name", "--sort=file.dir,name", "-S:size"):
            yield ("path", opt, rev)
    yield ("same", True)
    yield ("same", False)
    for a in ("num", "str", "list"):
        for rev in (False, True):
            yield ("api", a, rev)


def value(env, name, kind, small):
    """A free value and its oracle key: a list of numbers."""
    if kind in ("num", "len", "dur", "when"):
        v = env.int(name, 0, 1 if small else 3)
        return v, [v]
    if kind == "flag":
        v = env.bool(name)
        return v, [v * 1]
    if kind == "bits":
        v = env.int(name, 0o100644, 0o100645 if small else 0o100647)
        return v, [v]
    if kind == "kind":
        v = env.pick(name, ("file", "directory") if small else ("file", "directory", "fifo"))
        return v, [ord(c) for c in v]
    if kind == "str":
        n = 1 if small else env.pick(name + "n", (1, 2))
        v = env.text(name, n, "aB" if small or n == 2 else "aAbB")
        return v, [fold(c) for c in v]
    if kind == "deep":
        v = env.text(name, 4, ["a", "/.", ".ab", "ab/"])
        return v, pathkey(v)
    if kind == "loc":
        n = 1 if small else env.pick(name + "n", (1, 3))
        v = env.text(name, n, "a." if small else "aB./" if n < 3 else ["a", "./", ".b"])
        return v, pathkey(v)
    items = [env.text(f"{name}i{i}", 1, "ab") for i in range(env.pick(name + "n", (0, 1) if small else (0, 1, 2)))]
    if kind == "set":
        if len(items) == 2 and items[0] == items[1]:
            items.pop()
        keys = [[ord(i[0])] for i in items]
        if len(keys) == 2 and keys[1][0] < keys[0][0]:
            keys.reverse()
        return OrderedStringSet(items), keys
    return items, [[ord(i[0])] for i in items]


class OrderedStringSet(set):
    """A set that iterates in a definite order."""

    def __init__(self, items):
        super().__init__(i if isinstance(i, str) else str(i) for i in items)


def pathkey(v):
    out = []
    start = True
    for c in v:
        if c == "/":
            start = True
            out.append(ord("/"))
        elif start and c == ".":
            pass
        else:
            start = False
            out.append(fold(c))
    return out


SAME = {"set": "list", "deep": "loc"}
EMPTY = {"num": [0], "len": [0], "dur": [0], "when": [0], "flag": [0], "bits": [0]}


def less(a, b):
    """Lexicographic comparison as a condition."""
    if isinstance(a, list):
        r = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            r = less(x, y) | (same(x, y) & r)
        return r
    return a < b


def same(a, b):
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = r & same(x, y)
        return r
    return a == b


def run(env, case):
    if case[0] in ("one", "two", "three", "api", "hidden"):
        run_attrs(env, case)
    elif case[0] == "path":
        run_path(env, case[1], case[2])
    else:
        run_same(env, case[1])


def verify(env, order, keys, n, rev):
    env.check(sorted(order) == list(range(n)), "sorting loses or repeats entries")
    for i, a in enumerate(order):
        for b in order[i + 1:]:
            x, y = (b, a) if rev else (a, b)
            env.check(no(less(keys[y], keys[x])), "the entries are in the wrong order")
            if a > b:
                env.check(no(same(keys[x], keys[y])), "entries with equal keys are exchanged")
            elif same(keys[x], keys[y]):
                env.reach("equal")
            else:
                env.reach("less")


def run_attrs(env, case):
    if case[0] in ("two", "three"):
        kinds = case[1:-1]
        rev = env.flag("reverse")
        n = case[-1]
        env.reach(case[0] + " keys")
    elif case[0] == "hidden":
        kinds = ("deep",)
        rev = case[1]
        n = 2
    else:
        kinds = case[1:2]
        rev = case[2]
        n = case[3] if case[0] == "one" else 2
    if rev:
        env.reach("reverse")
    keys = []
    Probe.values = {}
    for i in range(n):
        vals = {}
        key = []
        for kind in kinds:
            if env.flag(f"missing{i}{kind}") if case[0] not in ("two", "three", "hidden") or i == 0 and case[0] == "two" else False:
                env.reach("missing")
                key.append(EMPTY.get(kind, []))
            else:
                v, k = value(env, f"{kind}{i}", kind, case[0] in ("two", "three"))
                vals[SAME.get(kind, kind)] = v
                key.append(k)
        Probe.values[f"f{i}"] = vals
        keys.append(key)
    if "set" in kinds and "list" in kinds:
        return
    fields = ["probe." + SAME.get(k, k) for k in kinds]
    world = World(D({"w": D({f"f{i}": F(b"") for i in range(n)})}))
    with active(world):
        if case[0] == "api":
            from libff.find import Find
            out = [r["path"] for r in Find([], output=["path"], sort=fields, reverse=rev, jobs=1, cache=None)]
        else:
            status = programme("-S", ",".join(fields), *["-R"] * rev)
            env.check(status == 0, "a sorted search fails")
            out = printed()
    env.observe(out)
    verify(env, [int(p[1:]) for p in out], keys, n, rev)


def run_path(env, opt, rev):
    a = env.text("a", 2, "xY.")
    b = env.text("b", 2, ["xY.", "Y."])
    c = env.text("c", 1, "xY-")
    for t in (a, b):
        env.assume(no(t == ".."))
    env.assume(no(a == b))
    env.reach("path")
    if rev:
        env.reach("reverse")
    if opt == "-S":
        env.reach("default")
    tree = {a: D({c: F(b"xx")}), b: F(b"x")}
    found = [(a, "", a, 0), (b, "", b, 1), (a + "/" + c, a, c, 2)]
    keys = []
    for path, dir_, name, size in found:
        if opt in ("-S", "-Spath"):
            keys.append(pathkey(path))
        elif opt == "--sort=name":
            keys.append([fold(ch) for ch in name])
        elif opt == "--sort=file.dir,name":
            keys.append([pathkey(dir_), [fold(ch) for ch in name]])
        else:
            keys.append([size])
    # -S takes an optional value
    argv = ["-S", "size"] if opt == "-S:size" else [opt]
    with active(World(D({"w": D(tree)}))):
        status = programme(*argv, *["--reverse"] * rev)
        out = printed()
    env.check(status == 0, "a sorted search fails")
    env.observe(out)
    order = []
    for p in out:
        for path, _, _, i in found:
            if len(path) == len(p) and path == p:
                order.append(i)
                break
    verify(env, order, keys, 3, rev)


def run_same(env, rev):
    """Many entries with equal keys: their order is kept."""
    n = 12
    v = [env.bool(f"odd{i}") if i % 4 == 0 else i % 2 == 0 for i in range(n)]
    Probe.values = {f"f{i}": {"num": v[i] * 1} for i in range(n)}
    with active(World(D({"w": D({f"f{i}": F(b"") for i in range(n)})}))):
        status = programme("-S", "probe.num", *["-R"] * rev)
        out = printed()
    env.check(status == 0, "a sorted search fails")
    verify(env, [int(p[1:]) for p in out], [[x * 1] for x in v], n, rev)
