"""C23: JSON output."""

from .common import *

LABELS = ("json", "jsonl", "zero", "one", "several", "null", "text", "number", "boolean", "list", "set", "human",
          "control", "undecodable", "as written", "sorted", "limited", "file")
BOUNDS = ("0 to 3 results; one or two requested attributes of every type, present or missing, with every modifier: text of "
          "up to 2 characters (letters, quotes, backslashes, control characters, undecodable bytes, non-ASCII characters), "
          "numbers up to 10^4 (thorough 10^9), lists and sets of up to 2 texts; file names of up to 2 such characters; "
          "sorted, reversed and limited; the attribute list 'file'")
BUDGET = {"quick": 150, "thorough": 2400}

CHARS = 'a"\\\n\x07\x7f/\xe9\udc80'


def cases(tier):
    deep = tier == "thorough"
    for how in ("--json", "--jsonl", "--ndjson"):
        for kind in ("str", "loc", "num", "len", "dur", "when", "flag", "bits", "kind", "list", "set"):
            yield ("one", how, kind)
        for a, b in (("str", "num"), ("flag", "str"), ("list", "len")):
            yield ("two", how, a, b)
        for n in range(0, 5 if deep else 4):
            yield ("many", how, n)
        for n in (1, 2) + (3,) * deep:
            yield ("name", how, n)
        for spec in ("name", "file.name", "name,file.name", "file.depth,depth,path", "NAME", "probe.num", "num,file.size,size"):
            yield ("keys", how, spec)
        yield ("file", how)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def search(env, tree, how, *argv):
    world = World(D({"w": D(tree)}))
    with active(world):
        status = programme(how, *argv)
        out = world.stdout.text()
    env.check(status == 0, "the search fails")
    env.observe(out)
    if how == "--json":
        env.reach("json")
        r = parse_json(out)
        env.check(isinstance(r, list), "not an array")
        return r
    env.reach("jsonl")
    r = []
    lines = out.split("\n")
    env.check(len(lines[-1]) == 0, "the last line is not terminated")
    for line in lines[:-1]:
        env.check(all(c != "\n" for c in line), "an object is not on one line")
        r.append(parse_json(line))
    return r


def equal(a, b):
    """Is a the parsed form of b?"""
    if isinstance(b, (list, tuple)):
        if not isinstance(a, list) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = r & equal(x, y)
        return r
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, bool) & isinstance(b, bool) & (a == b)
    if b is None or a is None:
        return a is None and b is None
    if isinstance(b, str):
        return isinstance(a, str) and len(a) == len(b) and a == b
    return not isinstance(a, (str, list, dict)) and a == b


def value(env, name, kind, size=None):
    """(value, what is printed of it, human-readable form)"""
    if kind in ("str", "loc"):
        env.reach("text")
        v = env.text(name, env.pick(name + "len", (0, 1, 2)) if size is None else size, CHARS)
        if any(c == "\udc80" for c in v):
            env.reach("undecodable")
        if any(c < " " for c in v):
            env.reach("control")
        return v, v, v
    if kind in ("list", "set"):
        env.reach(kind)
        v = [env.text(f"{name}{i}", 1, CHARS[:3] + "\udc80") for i in range(env.pick(name + "len", (0, 1, 2)))]
        if kind == "set":
            if len(v) == 2:
                env.assume(no(v[0] == v[1]))
            return set(str(x) for x in v), v, ",".join(v)
        return v, v, ",".join(v)
    if kind == "kind":
        v = env.pick(name, ("file", "fifo"))
        return v, v, v
    if kind == "flag":
        env.reach("boolean")
        v = env.bool(name)
        return v, v, "true" if v else "false"
    env.reach("number")
    v = env.int(name, 0, 10 ** 9 if env.thorough else 10 ** 4)
    return v, v, None


def both(key, vals):
    Probe.values[key] = vals
    Probe.values["/w/" + key] = vals


def run_one(env, how, kind):
    Probe.values = {}
    attribute = "list" if kind == "set" else kind
    mod = env.pick("modifier", ("", ":n", ":x", ":o", ":7") + (":h",) * (kind not in ("len", "dur", "when", "bits", "num")))
    if env.flag("missing"):
        env.reach("null")
        both("f", {})
        v = want = human = None
    else:
        v, want, human = value(env, "v", kind)
        both("f", {attribute: v})
    got = search(env, {"f": F(b"")}, how, "-o", f"probe.{attribute}{mod}")
    env.check(len(got) == 1, "not one object")
    env.reach("one")
    got = got[0]
    env.check(list(got) == ["probe." + attribute], "wrong keys")
    got = got["probe." + attribute]
    if mod == ":h" and v is not None:
        env.reach("human")
        if kind == "set":
            # in any order
            env.check(equal(got, human) | equal(got, ",".join(want[::-1])), "wrong human-readable value")
        else:
            env.check(equal(got, human), "wrong human-readable value")
    elif kind == "set" and v is not None:
        env.check(equal(got, want) | equal(got, want[::-1]), "wrong value")
    else:
        env.check(equal(got, want), "wrong value")


def run_two(env, how, a, b):
    Probe.values = {}
    vals, want = {}, {}
    for k in (a, b):
        if env.flag("missing " + k):
            env.reach("null")
            want[k] = None
        else:
            vals[k], want[k], _ = value(env, "v" + k, k, 1 if k == "str" else None)
    both("f", vals)
    got = search(env, {"f": F(b"")}, how, "-o", f"probe.{a},probe.{b}:n,path")
    env.check(len(got) == 1, "not one object")
    env.check(list(got[0]) == ["probe." + a, "probe." + b, "path"], "wrong keys")
    env.check(equal(list(got[0].values()), [want[a], want[b], "/w/f"]), "wrong values")


def run_many(env, how, n):
    env.reach("zero" if not n else "several")
    Probe.values = {}
    vals = []
    for i in range(n):
        vals.append(None if env.flag(f"missing{i}") else env.int(f"v{i}", 0, 99))
        both(f"f{i}", {} if vals[i] is None else {"num": vals[i]})
    argv, order = [], list(range(n))
    mode = env.pick("mode", ("plain", "sorted", "reversed", "limited", "nothing"))
    if mode == "sorted":
        env.reach("sorted")
        argv = ["-S"]
    elif mode == "reversed":
        argv = ["-S", "-R"]
        order.reverse()
    elif mode == "limited":
        env.reach("limited")
        argv = ["-S", "-l1:3"]
        order = order[1:3]
    elif mode == "nothing":
        env.reach("zero")
        argv = ["depth=7"]
        order = []
    got = search(env, {f"f{i}": F(b"") for i in range(n)}, how, "-o", "name,probe.num", *argv)
    env.check(len(got) == len(order), "wrong number of objects")
    for g, i in zip(got, order):
        env.check(equal(g["name"], f"f{i}"), "wrong order")
        env.check(equal(g["probe.num"], vals[i]), "wrong value")


def run_name(env, how, n):
    name = env.text("name", n, [c for c in (CHARS.replace("/", ""), "b\n'\udc80\u0394\U0001f600", "c")][:n])
    got = search(env, {name: F(b"")}, how)
    env.check(len(got) == 1, "not one object")
    env.check(list(got[0]) == ["path"], "wrong keys")
    env.check(equal(got[0]["path"], "/w/" + name), "wrong path")


def run_keys(env, how, spec):
    env.reach("as written")
    if spec == "NAME":
        # attribute names are case-sensitive
        world = World(D({"w": D({})}))
        with active(world):
            status = programme(how, "-o", spec)
        env.check(status in (2, 11), "an unknown attribute is accepted")
        return
    Probe.values = {}
    both("f", {"num": 5})
    size = env.int("size", 0, 99)
    got = search(env, {"f": F(b"", size=size)}, how, "-o", spec)
    env.check(len(got) == 1, "not one object")
    env.check(list(got[0]) == spec.split(","), "wrong keys")
    want = {"name": "f", "depth": 0, "path": "/w/f", "num": 5, "size": size}
    for k, v in got[0].items():
        env.check(equal(v, want[k.split(".")[-1]]), "wrong value")


def run_file(env, how):
    """All attributes of a file."""
    env.reach("file")
    kind = env.pick("kind", ("file", "link", "dir"))
    node = {"file": lambda: F(b"", size=env.int("size", 0, 99)), "link": lambda: L("/x"), "dir": lambda: D({})}[kind]()
    got = search(env, {"f": node}, how, "-o", "file")
    env.check(len(got) == 1, "not one object")
    got = {k.split(".")[-1]: v for k, v in got[0].items()}
    for k in ("path", "name", "dir", "ext", "size", "time", "mode", "link", "target", "user", "type", "empty", "depth"):
        env.check(k in got, "an attribute is missing")
    env.check(equal(got["link"], "/x" if kind == "link" else None), "wrong link")
    env.check(equal(got["type"], {"file": "file", "link": "symlink", "dir": "directory"}[kind]), "wrong type")
    env.check(equal(got["size"], node.st.st_size if kind == "file" else 0), "wrong size")
    env.check(equal(got["depth"], 0) & equal(got["ext"], "") & equal(got["name"], "f") & equal(got["path"], "/w/f"), "wrong value")
    env.check(equal(got["broken"], kind == "link") & equal(got["exec"], False), "wrong boolean")
