"""C19: natural order."""

from .common import *

from libff.field import SortFields

LABELS = ("number", "stem", "component", "zero", "transitive", "missing", "digit", "types", "crossed", "extensions", "list")
BOUNDS = ("names p N s and p M s with any prefix and suffix of up to 2 characters and numbers of up to 3 (thorough "
          "4) digits each; stems and extensions of up to 2 characters; paths of two components of up to 2 (thorough 3) "
          "characters of the classes letter, digit, dot, other digit-like character and punctuation, compared "
          "with one another pairwise; triples of names of 2 characters; up to three extensions of one character; lists of up to three texts; missing values and values of every attribute type")
BUDGET = {"quick": 150, "thorough": 2400}


def cases(tier):
    deep = tier == "thorough"
    for a in range(1, 5 if deep else 4):
        for b in range(1, 5 if deep else 4):
            for pre in (0, 1, 2):
                for post in (0, 1) if not deep else (0, 1, 2):
                    yield ("number", a, b, pre, post)
    for n in (1, 2):
        for m in (0, 1, 2):
            for k in (0, 1, 2):
                yield ("stem", n, m, k)
    top = 3 if deep else 2
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            for k in (1, 2):
                yield ("component", n, m, k)
    for a in range(0, 4):
        for b in range(0, 4):
            for c in range(0, 3 if deep else 2):
                yield ("any", (a, b, c))
    for t in ("num", "len", "dur", "when", "flag", "bits", "kind", "list", "str", "loc"):
        yield ("types", t)
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            yield ("extensions", n, m)
    for n in (1, 2) + ((3,) if deep else ()):
        for m in (1, 2):
            yield ("list", n, m)
    yield ("run",)


def key(ctx, attribute, i, **values):
    """The sort key of an entry with the given value."""
    e = probe(relpath=f"f{i}", **values)
    return SortFields(ctx, [attribute]).render(e)


def ctx_():
    return context()


def run(env, case):
    with active(World()):
        ctx = ctx_()
        globals()["run_" + case[0]](env, ctx, *case[1:])


def compare(env, a, b):
    """-1, 0 or 1; comparing must be possible and consistent."""
    lt, gt, eq = a < b, b < a, a == b
    env.observe([lt, gt, eq])
    env.check((lt * 1) + (gt * 1) + (eq * 1) == 1, "two keys are neither equal nor ordered")
    return -1 if lt else 1 if gt else 0


DIGITS = "0129"


def run_number(env, ctx, a, b, pre, post):
    x = env.text("number1", a, DIGITS)
    y = env.text("number2", b, DIGITS)
    p = env.text("prefix", pre, "a-/." if pre < 2 else ["a/", "a_."])
    s = env.text("suffix", post, "z-.")
    attribute = env.pick("attribute", ("probe.str", "probe.loc"))
    v = w = 0
    for c in x:
        v = v * 10 + ord(c) - 48
    for c in y:
        w = w * 10 + ord(c) - 48
    name = attribute[6:]
    r = compare(env, key(ctx, attribute + ":v", 0, **{name: p + x + s}), key(ctx, attribute + ":v", 1, **{name: p + y + s}))
    env.reach("number")
    if v == w:
        env.reach("zero")
        env.check(r == 0, "names with the same number are not equal")
    else:
        env.check((r < 0) == (v < w), "names are not ordered by the number in them")


def run_stem(env, ctx, n, m, k):
    """Stem first, then the extension."""
    a = env.text("stem1", n, "aB1_")
    b = env.text("stem2", n, "aB1_") + env.text("more", m, "b2-")
    e1, e2 = env.text("ext1", k, "cD"), env.text("ext2", env.pick("k2", (0, 1, 2)), "cD")
    x = a + "." + e1 if k else a
    y = b + "." + e2 if len(e2) else b
    env.reach("stem")
    r = compare(env, key(ctx, "probe.str:v", 0, str=x), key(ctx, "probe.str:v", 1, str=y))
    stem = compare(env, key(ctx, "probe.str:v", 2, str=a), key(ctx, "probe.str:v", 3, str=b))
    if stem:
        env.check(r == stem, "an extension outweighs the stem")
    else:
        f1 = [fold(c) for c in e1]
        f2 = [fold(c) for c in e2]
        want = -1 if less(f1, f2) else 1 if less(f2, f1) else 0
        env.check(r == want, "extensions of equal stems are in the wrong order")


def less(a, b):
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = (x < y) | ((x == y) & r)
    return r


def run_component(env, ctx, n, m, k):
    """The first differing component decides, whatever follows."""
    a = env.text("first1", n, "a1.")
    b = env.text("first2", m, "b1.")
    x = env.text("rest1", k, ["a1.", "c1"][:k])
    y = env.text("rest2", 1, "b1.")
    env.reach("component")
    first = compare(env, key(ctx, "probe.str:v", 0, str=a), key(ctx, "probe.str:v", 1, str=b))
    r = compare(env, key(ctx, "probe.str:v", 2, str=a + "/" + x), key(ctx, "probe.str:v", 3, str=b + "/" + y))
    rest = compare(env, key(ctx, "probe.str:v", 4, str=x), key(ctx, "probe.str:v", 5, str=y))
    env.check(r == (first if first else rest), "a later path component outweighs an earlier one")


def run_extensions(env, ctx, n, m):
    """The extensions of equal stems decide one by one, from left to right."""
    env.reach("extensions")
    a = [env.text(f"ext1{i}", 1, "abC") for i in range(n)]
    b = [env.text(f"ext2{i}", 1, "abC") for i in range(m)]
    stem = env.text("stem", 1, "a1")
    k = key(ctx, "probe.str:v", 0, str=".".join([stem] + a)), key(ctx, "probe.str:v", 1, str=".".join([stem] + b))
    r = compare(env, *k)
    x, y = [fold(c[0]) for c in a], [fold(c[0]) for c in b]
    env.check(r == (-1 if less(x, y) else 1 if less(y, x) else 0), "extensions of equal stems are in the wrong order")


def run_list(env, ctx, n, m):
    """Lists are ordered by their first elements that differ, as these are."""
    env.reach("list")
    a, b = env.text("a", n, "a19"), env.text("b", m, "a19")
    common = [env.text("common", 1, "a1")] * env.pick("n", (0, 1))
    r = compare(env, key(ctx, "probe.list:v", 0, list=common + [a, "1"]), key(ctx, "probe.list:v", 1, list=common + [b, "1"]))
    s = compare(env, key(ctx, "probe.str:v", 2, str=a), key(ctx, "probe.str:v", 3, str=b))
    env.check(r == s, "lists are not ordered by their elements")


CHARS = "a1.\xb2/"


def run_any(env, ctx, lens):
    keys = []
    vals = []
    for i, n in enumerate(lens):
        t = env.text(f"value{i}", n, CHARS if n < 3 else ["a1.", "./1", "a1."])
        vals.append(t)
        if n and ((t[0] >= "0") & (t[0] <= "9") | (t[0] == "\xb2")):
            env.reach("digit")
        keys.append(key(ctx, "probe.loc:v", i, loc=t))
    r01, r12, r02 = compare(env, keys[0], keys[1]), compare(env, keys[1], keys[2]), compare(env, keys[0], keys[2])
    env.reach("transitive")
    if r01 <= 0 and r12 <= 0:
        env.check(r02 <= 0, "the order is not transitive")
    if r01 >= 0 and r12 >= 0:
        env.check(r02 >= 0, "the order is not transitive")
    none = key(ctx, "probe.loc:v", 9)
    env.reach("missing")
    for k in keys:
        compare(env, k, none)


def run_types(env, ctx, kind):
    env.reach("types")

    def val(i):
        if kind in ("num", "len", "dur", "when", "bits"):
            return env.int(f"v{i}", 0, 12)
        if kind == "flag":
            return env.bool(f"v{i}")
        if kind == "kind":
            return env.pick(f"v{i}", ("file", "fifo"))
        if kind == "list":
            return [env.text(f"v{i}.{j}", 1, "a1") for j in range(env.pick(f"n{i}", (0, 1, 2)))]
        return env.text(f"v{i}", 2, "a1.")
    a, b = val(0), val(1)
    x, y = key(ctx, f"probe.{kind}:v", 0, **{kind: a}), key(ctx, f"probe.{kind}:v", 1, **{kind: b})
    r = compare(env, x, y)
    if kind in ("num", "len", "dur", "when", "bits"):
        env.check((r < 0) == (a < b), "numbers are not ordered by value")
        env.check((r == 0) == (a == b), "numbers are not ordered by value")
    none = key(ctx, f"probe.{kind}:v", 2)
    compare(env, x, none)
    compare(env, none, y)


def run_run(env, ctx):
    """Through the whole programme: a directory whose names have extensions and digits where others do not."""
    env.reach("crossed")
    a = env.text("a", 2, ["ab", "1."])
    b = env.text("b", 3, ["ab1", ".1", "a1"])
    with active(World(D({"w": D({"x.tar.gz": D({"y": F(b"")}), "x": D({"tar1": F(b""), b: F(b"")}), a: F(b"")})}))):
        status = programme("-S", "path:v")
        out = printed()
    env.check(status == 0, "sorting fails")
    env.check(len(out) == 6, "sorting loses entries")
    pos = {}
    for i, p in enumerate(out):
        if p in ("x", "x/tar1", "x.tar.gz", "x.tar.gz/y"):
            pos[p] = i
    env.observe(pos["x"])
    env.check(pos["x"] < pos["x/tar1"] < pos["x.tar.gz"] < pos["x.tar.gz/y"], "wrong order")
