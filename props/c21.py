"""C21: the count option."""

from .common import *

LABELS = ("text", "json", "none", "missing", "equal", "different", "total", "mixed", "undecodable", "modifier", "default", "repeated")
BOUNDS = ("0 to 3 (thorough 4) results with every combination of present and missing values: text of up to 2 characters (1 for the second and third result of three) "
          "(digits, other digit-like characters, letters, undecodable bytes, quotes), numbers 0 to 12, every 12-bit "
          "permission out of 3 bits, times, booleans, file types, sizes and durations of any value up to 300 (thorough 10^5); one or two "
          "counted attributes with and without modifiers, attributes given several times, the default attributes over every small tree; text and JSON")
BUDGET = {"quick": 150, "thorough": 2400}

KINDS = ("num", "str", "loc", "flag", "bits", "kind", "when", "len", "dur")


def cases(tier):
    deep = tier == "thorough"
    for json in (False, True):
        for kind in KINDS:
            for n in range(0, 5 if deep else 4):
                if kind in ("str", "loc") and n == 3 and not deep:
                    for i in range(4):
                        yield ("one", kind, n, json, i)
                else:
                    yield ("one", kind, n, json, None)
        for a, b in (("str", "len"), ("num", "flag"), ("dur", "kind"), ("bits", "str")):
            for n in (1, 2):
                yield ("two", a, b, n, json)
        for kind, mod in (("num", "x"), ("num", "o"), ("bits", "o"), ("bits", "x"), ("bits", "h"), ("len", "h"),
                          ("len", "x"), ("when", "h"), ("num", "n")):
            yield ("mod", kind, mod, json)
        yield ("default", json)
        for a, b in (("len", "flag"), ("kind", "dur"), ("str", "num")):
            yield ("twice", a, b, json)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


ODD = "\xb2\udc80"


def value(env, name, kind, small=False, size=None):
    if kind in ("str", "loc"):
        n = env.pick(name + "len", (0, 1, 2) if not small else (0, 1)) if size is None else size
        return env.text(name, n, ['0a"' + ODD, "1a\xb2"][:n])
    if kind == "num":
        return env.pick(name, (0, 2, 12))
    if kind == "flag":
        return env.flag(name)
    if kind == "bits":
        return env.pick(name, (0, 0o644, 0o4755))
    if kind == "kind":
        return env.pick(name, ("file", "directory"))
    if kind == "when":
        return env.pick(name, (0, 1600000000))
    return env.int(name, 0, 10 ** 5 if env.thorough else 300)


def text_of(kind, v):
    if kind in ("str", "loc", "kind"):
        return v
    if kind == "flag":
        return "true" if v else "false"
    return str(v)


TOTAL = ("len", "dur")


def search(env, n, json, *argv):
    for path in list(Probe.values):
        Probe.values["/w/" + path] = Probe.values[path]
    world = World(D({"w": D({f"f{i}": F(b"") for i in range(n)})}))
    with active(world):
        status = programme(*argv, *["--json"] * json)
        out = world.stdout.text()
    env.check(status == 0, "counting fails")
    env.observe(out)
    if json:
        env.reach("json")
        data = parse_json(out)
        got = []
        for k, v in data.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    got.append((k, a, b))
            else:
                got.append((k, None, v))
        return got
    env.reach("text")
    got = []
    lines = out.split("\n")
    env.check(lines[-1] == "", "unterminated output")
    for line in lines[:-1]:
        # the value is the text after the last equals sign
        i = line.rfind("=")
        j = line.find("[")
        if j < 0:
            got.append((line[:i], None, line[i + 1:]))
        else:
            env.check(line[i - 1] == "]", "malformed output")
            got.append((line[:j], line[j + 1:i - 1], line[i + 1:]))
    return got


def number(x):
    if isinstance(x, str):
        v = 0
        env_ok = len(x) > 0
        for c in x:
            env_ok = env_ok & (c >= "0") & (c <= "9")
            v = v * 10 + ord(c) - 48
        if not env_ok:
            raise AssertionError("not a number: " + x)
        return v
    return x


def tally(values):
    """[(value, how many)]"""
    groups = []
    for v in values:
        for g in groups:
            if g[0] == v:
                g[1] += 1
                break
        else:
            groups.append([v, 1])
    return groups


def verify(env, got, n, columns, render=None):
    """columns: [(name, kind, values of the results that have one)]"""
    left = list(got)

    def take(test):
        for i, g in enumerate(left):
            if test(g):
                return left.pop(i)
        return None

    g = take(lambda g: g[0] == "_total")
    env.check(g is not None, "no total is printed")
    env.check(number(g[2]) == n, "the total is not the number of results")
    for name, kind, values in columns:
        if kind in TOTAL:
            env.reach("total")
            g = take(lambda g: g[0] == name)
            if g is None:
                env.check(not values, "no sum is printed")
                continue
            want = 0
            for v in values:
                want += v
            if render:
                env.check(g[2] == render(want), "the sum is wrong")
            else:
                env.check(number(g[2]) == want, "the sum is wrong")
            continue
        groups = tally(values)
        if any(c > 1 for _, c in groups):
            env.reach("equal")
        if len(groups) > 1:
            env.reach("different")
        plain = []
        odd = []
        for v, c in groups:
            t = render(v) if render else text_of(kind, v)
            (odd if kind in ("str", "loc") and any(ch == "\udc80" for ch in t) else plain).append((t, c))
        if odd and plain:
            env.reach("undecodable")
        if kind in ("str", "loc") and len(plain) > 1:
            digits = [len(t) > 0 and all((c >= "0") & (c <= "9") for c in t) for t, _ in plain]
            if any(digits) and not all(digits):
                env.reach("mixed")
        for t, c in plain:
            g = take(lambda g: g[0] == name and len(g[1]) == len(t) and g[1] == t)
            env.check(g is not None, "a value is not counted")
            env.check(number(g[2]) == c, "a value has the wrong count")
        for t, c in odd:
            g = take(lambda g: g[0] == name and number(g[2]) == c)
            env.check(g is not None, "an undecodable value is not counted")
    env.check(not left, "something else is counted")


def run_one(env, kind, n, json, part):
    Probe.values = {}
    values = []
    for i in range(n):
        # part is the length of the first value, 3 if there is none
        if part == 3 if part is not None and i == 0 else env.flag(f"missing{i}"):
            env.reach("missing")
            Probe.values[f"f{i}"] = {}
        else:
            v = value(env, f"v{i}", kind, n > 2 and not env.thorough, part if i == 0 else None)
            Probe.values[f"f{i}"] = {kind: v}
            values.append(v)
    if n == 0:
        env.reach("none")
    got = search(env, n, json, "--count", "probe." + kind)
    verify(env, got, n, [("probe." + kind, kind, values)])


def run_two(env, a, b, n, json):
    Probe.values = {}
    cols = {a: [], b: []}
    for i in range(n):
        vals = {}
        for k in (a, b):
            if not env.flag(f"missing{i}{k}"):
                vals[k] = value(env, f"{k}{i}", k, True)
                cols[k].append(vals[k])
        Probe.values[f"f{i}"] = vals
    got = search(env, n, json, f"--count=probe.{a},probe.{b}")
    verify(env, got, n, [("probe." + k, k, v) for k, v in cols.items()])


def run_twice(env, a, b, json):
    """the same attributes given several times are still counted once"""
    env.reach("repeated")
    Probe.values = {}
    cols = {a: [], b: []}
    for i in range(2):
        vals = {}
        for k in (a, b):
            if k == b or not env.flag(f"missing{i}"):
                vals[k] = value(env, f"{k}{i}", k, True)
                cols[k].append(vals[k])
        Probe.values[f"f{i}"] = vals
    got = search(env, 2, json, f"--count=probe.{a},probe.{a},probe.{b},probe.{a}")
    verify(env, got, 2, [("probe." + k, k, v) for k, v in cols.items()])


FIXED = {"len": (0, 100, 2048, 1536), "when": (0, 1600000000)}


def run_mod(env, kind, mod, json):
    env.reach("modifier")
    Probe.values = {}
    values = []
    for i in range(2):
        v = env.pick(f"v{i}", FIXED[kind]) if kind in FIXED else value(env, f"v{i}", kind)
        Probe.values[f"f{i}"] = {kind: v}
        values.append(v)
    got = search(env, 2, json, "--count", f"probe.{kind}:{mod}")
    import stat
    import time

    def render(v):
        if mod == "h":
            if kind == "bits":
                return stat.filemode(v)
            if kind == "len":
                return str(v) if v < 1024 else f"{round(v / 1024, 1)}K"
            return time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(v))
        return format(v, {"x": "x", "o": "o", "n": "d"}[mod])

    verify(env, got, 2, [("probe." + kind, kind, values)], render)


def run_default(env, json):
    """--count without attributes: the sizes and the types."""
    env.reach("default")
    sizes = [env.pick(f"size{i}", (0, 3, 1000)) for i in range(2)]
    tree = {"a": F(b"x" * sizes[0]), "b": F(b"x" * sizes[1])}
    types = ["file", "file"]
    if env.flag("dir"):
        tree["d"] = D({})
        types.append("directory")
    if env.flag("link"):
        tree["l"] = L("a")
        types.append("symlink")
    world = World(D({"w": D(tree)}))
    with active(world):
        status = programme("--count", *["--json"] * json)
        out = world.stdout.text()
    env.check(status == 0, "counting fails")
    env.observe(out)
    total = sum(sizes)
    size = total if json or total < 1000 else {1000: "1000", 1003: "1003", 2000: "2.0K"}[total]
    if json:
        data = parse_json(out)
        env.check(data["_total"] == len(types), "the total is not the number of results")
        rest = {k.split(".")[-1]: v for k, v in data.items() if k != "_total"}
        env.check(rest["size"] == total, "the sum of the sizes is wrong")
        env.check(rest["type"] == {t: types.count(t) for t in types}, "the types are counted wrongly")
    else:
        lines = out.split("\n")
        env.check(f"_total={len(types)}" in lines, "the total is not the number of results")
        env.check(any(l in (f"size={size}", f"file.size={size}") for l in lines), "the sum of the sizes is wrong")
        for t in set(types):
            env.check(any(l.split(".")[-1] == f"type[{t}]={types.count(t)}" for l in lines), "the types are counted wrongly")
