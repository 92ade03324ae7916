"""C04: text tests (=, :, ~, %) and case modes, through the query parser and the matcher."""

from .common import *

LABELS = ("=", ":", "~", "%", "list", "path", "smart-folds", "smart-exact", "ignore", "sensitive", "deep", "text glob")
BOUNDS = ("given values and entry values of up to 3 (thorough 5) characters over letters of both "
          "cases (ASCII and Ä/ä/é), digits and '.-_\\'; lists of up to 2 elements; 11 fixed regular "
          "expressions and 8 fixed globs against entry values of up to 4 (thorough 6) characters; "
          "attributes of the types string, path and string list, globs on path attributes with one to three components, also . and ..; the three case modes")
ASSUME = ("letter case is the ASCII one plus Ä/ä: special Unicode case pairs are outside",
          "a value starting with {} is a reference (C33)")
BUDGET = {"quick": 100, "thorough": 1500}

VALUE = "aAbBzZ1.-_Ää\xe9"
MODES = ("smart", "ignore", "sensitive")


def lit(x):
    return lambda c, ci: (fold(c) == fold(x)) if ci else c == x


def one_of(chars, neg=False):
    def f(c, ci):
        r = False
        for x in chars:
            r = r | ((fold(c) == fold(x)) if ci else (c == x))
        return no(r) if neg else r
    return f


def rng(lo, hi):
    return one_of("".join(map(chr, range(ord(lo), ord(hi) + 1))))


def dot(c, ci):
    return True


def digit(c, ci):
    return (c >= "0") & (c <= "9")


def nondigit(c, ci):
    return no(digit(c, ci))


def word(c, ci):
    return no(among(c, ".- +"))


# pattern: (items, anchored at start, anchored at end); alternatives as a list
REGEX = {
    "a.b": [([(lit("a"), "1"), (dot, "1"), (lit("b"), "1")], 0, 0)],
    "^aB": [([(lit("a"), "1"), (lit("B"), "1")], 1, 0)],
    "b$": [([(lit("b"), "1")], 0, 1)],
    "^a*$": [([(lit("a"), "*")], 1, 1)],
    "[^a]b": [([(one_of("a", True), "1"), (lit("b"), "1")], 0, 0)],
    "[a-z]1": [([(rng("a", "z"), "1"), (lit("1"), "1")], 0, 0)],
    "ab+": [([(lit("a"), "1"), (lit("b"), "+")], 0, 0)],
    "a|bb": [([(lit("a"), "1")], 0, 0), ([(lit("b"), "1"), (lit("b"), "1")], 0, 0)],
    r"\d": [([(digit, "1")], 0, 0)],
    r"a\D": [([(lit("a"), "1"), (nondigit, "1")], 0, 0)],
    r"^\w\W$": [([(word, "1"), (lambda c, ci: no(word(c, ci)), "1")], 1, 1)],
    r"A\.?z": [([(lit("A"), "1"), (lit("."), "?"), (lit("z"), "1")], 0, 0)],
    "": None,
}
GLOB = {
    "a*": [(lit("a"), "1"), (dot, "*")],
    "*.B": [(dot, "*"), (lit("."), "1"), (lit("B"), "1")],
    "?b": [(dot, "1"), (lit("b"), "1")],
    "[ab]?": [(one_of("ab"), "1"), (dot, "1")],
    "[!a-c]*": [(one_of("abc", True), "1"), (dot, "*")],
    "a": [(lit("a"), "1")],
    "A.+": [(lit("A"), "1"), (lit("."), "1"), (lit("+"), "1")],
    "*a*b": [(dot, "*"), (lit("a"), "1"), (dot, "*"), (lit("b"), "1")],
}


# The whole value is matched by patterns with a slash in the middle: (before the free part, pattern, items)
ANY = (lambda c, ci: no(c == "/"), "*")
ONE = (lambda c, ci: no(c == "/"), "1")
DEEP = [(start, pattern, items) for start in ("../", "./", "d/../", "d/", "") for pattern, items in (
    ("../*", [(lit("."), "1")] * 2 + [(lit("/"), "1"), ANY]),
    ("./?a", [(lit("."), "1"), (lit("/"), "1"), ONE, (lit("a"), "1")]),
    ("d/*/[ab]*", [(lit("d"), "1"), (lit("/"), "1"), ANY, (lit("/"), "1"), (one_of("ab"), "1"), ANY]),
    ("*/b", [ANY, (lit("/"), "1"), (lit("b"), "1")]),
)]


def cases(tier):
    full = tier == "thorough"
    top = 5 if full else 3
    for attr in ("str", "list", "name"):
        for mode in MODES:
            for op in ("=", ":"):
                for n in range(1, top + 1):
                    for m in range(0, top + 1):
                        if attr == "name" and m == 0:
                            continue
                        if attr == "list" and (m > 2 or n > 2) and not full:
                            continue
                        if op == "=" and abs(n - m) > 1:
                            continue
                        yield (attr, op, mode, n, m)
            for p in list(REGEX)[:-1]:
                for m in range(1 if attr == "name" else 0, 7 if full else 5):
                    if attr == "list" and m > 2:
                        continue
                    yield (attr, "~", mode, p, m)
            for p in GLOB:
                for m in range(1 if attr == "name" else 0, 7 if full else 5):
                    if attr == "list" and m > 2:
                        continue
                    yield (attr, "%", mode, p, m)
    for attr in ("path", "relpath", "namex", "dir", "link", "deep link"):
        for mode in MODES:
            for p in GLOB:
                if "link" in attr and p not in ("*.B", "[ab]?", "a") and not full:
                    continue
                for m in range(1, 6 if full else 3 if "link" in attr else 4):
                    yield (attr, "%", mode, p, m)
    for attr in ("link", "loc"):
        for i in range(len(DEEP)):
            for m in (1, 2, 3):
                yield ("deep", attr, i, m)
    for i in range(5):
        for m in (1, 2, 3):
            yield ("text glob", i, m)


def run_deep(env, attr, i, m):
    env.reach("deep")
    start, pattern, items = DEEP[i]
    value = start + env.text("text", m, "ab.")
    with active(World()):
        ctx = context("-c", "sensitive")
        if attr == "link":
            W.CUR.root = D({"w": D({"l": L(value)})})
            e = entry("l", W.CUR.stat("l", False))
            matcher = Matcher(ctx, ["link%" + pattern])
        else:
            e = probe(loc=value)
            matcher = Matcher(ctx, ["probe.loc%" + pattern])
        got = matcher.test(e)
    env.observe(got)
    env.check(got == nfa([((lambda c, p=p: p(c, False)), q) for p, q in items], value, (True, True)),
              "% test decides wrongly")


def run_text_glob(env, i, m):
    """A slash has no special meaning in the place of a text that is no path: at the start it stands for itself."""
    env.reach("text glob")
    pattern, items = (("/a", [(lit("/"), "1"), (lit("a"), "1")]), ("/*", [(lit("/"), "1"), ANY]),
                      ("a/b", [(lit("a"), "1"), (lit("/"), "1"), (lit("b"), "1")]),
                      ("*/a", [ANY, (lit("/"), "1"), (lit("a"), "1")]), ("*", [ANY]))[i]
    value = env.text("text", m, "/ab")
    if pattern in ("a/b", "*/a", "*"):
        env.assume(no(value[0] == "/"))
    with active(World()):
        ctx = context("-c", "sensitive")
        e = probe(str=value)
        got = Matcher(ctx, ["probe.str%" + pattern]).test(e)
    env.observe(got)
    env.check(got == nfa([((lambda c, p=p: p(c, False)), q) for p, q in items], value, (True, True)),
              "% test decides wrongly")


def run(env, case):
    if case[0] == "deep":
        return run_deep(env, *case[1:])
    if case[0] == "text glob":
        return run_text_glob(env, *case[1:])
    attr, op, mode, arg, m = case
    fixed = isinstance(arg, str)
    dom = "aAbBzZ1.-+" if fixed else VALUE
    values = [env.text("text", m, dom)]
    if attr == "list":
        values.append(env.text("text2", max(0, m - 1) if fixed else m, dom))
        env.reach("list")
    given = arg if fixed else env.text("given", arg, [VALUE.replace("-", "")] + [VALUE] * (arg - 1))
    env.reach(op)
    upper = False
    for c in given:
        upper = upper | ((c >= "A") & (c <= "Z")) | (c == "\xc4")
    if mode == "smart":
        upper = bool(upper)
        env.reach("smart-exact" if upper else "smart-folds")
        ci = not upper
    else:
        env.reach(mode)
        ci = mode == "ignore"
    with active(World()):
        ctx = context("--case", mode)
        if attr == "name":
            env.assume(no(values[0] == ".") & no(values[0] == ".."))
            e = entry(values[0])
            matcher = Matcher(ctx, ["name" + op + given])
        elif attr in ("path", "relpath", "namex", "dir", "link", "deep link"):
            # the last component of the value is what counts
            env.reach("path")
            env.assume(no(values[0] == ".") & no(values[0] == ".."))
            below = {"namex": ".x", "dir": "/f"}.get(attr, "")
            if "link" in attr:
                W.CUR.root = D({"w": D({"Ab": L(("d/" if attr == "deep link" else "") + values[0])})})
                e = entry("Ab", W.CUR.stat("Ab", False))
            else:
                e = entry(("d/" if attr == "relpath" else "") + values[0] + below)
            matcher = Matcher(ctx, [attr.split(" ")[-1] + op + given])
        elif attr == "list":
            e = probe(list=values)
            matcher = Matcher(ctx, ["probe.list" + op + given])
        else:
            e = probe(str=values[0])
            matcher = Matcher(ctx, ["probe.str" + op + given])
        got = matcher.test(e)
    env.observe(got)
    want = False
    for v in values:
        want = want | holds(op, given, v, ci)
    env.check(got == want, f"{op} test decides wrongly")


def holds(op, given, text, ci):
    if op == "=":
        if len(given) != len(text):
            return False
        return contains(given, text, ci)
    if op == ":":
        return contains(given, text, ci)
    if op == "~":
        r = False
        for items, start, end in REGEX[given]:
            r = r | nfa([((lambda c, p=p: p(c, ci)), q) for p, q in items], text, (start, end))
        return r
    return nfa([((lambda c, p=p: p(c, ci)), q) for p, q in GLOB[given]], text, (True, True))


def contains(given, text, ci):
    r = False
    for i in range(len(text) - len(given) + 1):
        ok = True
        for j in range(len(given)):
            a, b = given[j], text[i + j]
            ok = ok & ((fold(a) == fold(b)) if ci else (a == b))
        r = r | ok
    return r
