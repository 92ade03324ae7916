"""C09: glob patterns, through the query parser and the matcher (operator %)."""

import itertools

from .common import *

LABELS = ("anchored", "basename", "inverted", "directory", "star", "dirs", "set", "escape", "literal",
          "string")
BOUNDS = ("patterns of up to 3 (thorough 4) pieces out of 'a', 'b', '.', '+', '*', '?', '/', '**', "
          "[b], []], [ab], [!a], [^a], [a-c], []a], [a-], [b-a], '\\\\*', '\\\\[', '\\\\\\\\', '#', with optional "
          "leading '!', '\\\\!', '\\\\#' and trailing '/'; paths of 1-3 (with inner '**' 4) components of 1-2 (thorough 3) "
          "arbitrary characters (ASCII, control and special characters), relative, below a named "
          "directory or absolute; directories and other entries; path and string attributes")
ASSUME = ("outside of the specification: an unclosed '[', a trailing lone backslash, doubled slashes "
          "in the pattern, white space around a pattern, slashes inside of sets and slashes in "
          "patterns for attributes that are no paths",)
BUDGET = {"quick": 100, "thorough": 2400}

CHARS = "ab+.*?[]!^#\\-c\n \xe4"
PIECES = ("a", "b", ".", "*", "?", "/", "**", "[ab]", "[!a]", "[^a]", "[a-c]", "[]a]", "[a-]", "[b-a]",
          "\\*", "\\[", "\\\\", "#", "+", "[b]", "[]]")
CORE = ("a", "*", "?", "/", "**", "[ab]", "[!a]", "\\*", ".")
MIN = ("a", "*", "?", "/", "**", "[!a]")


def patterns(full):
    seen = set()
    for n, pieces in ((1, PIECES), (2, PIECES), (3, PIECES if full else CORE),
                      (4, CORE if full else MIN), (5, MIN if full else ("a", "/", "**"))):
        for t in itertools.product(pieces, repeat=n):
            p = "".join(t)
            if n == 5 and not full and p.count("**") != 2:
                continue
            if n == 4 and not full and "/" not in t:
                continue
            if "//" in p or p == "/" or "***" in p:
                continue
            if p not in seen:
                seen.add(p)
                yield p


def cases(tier):
    full = tier == "thorough"
    for p in patterns(full):
        yield ("path", p)
    for p in PIECES + CORE:
        for lead in ("!", "\\!", "\\#", "!\\!"):
            yield ("path", lead + p)
    for p in ("a", "a/b", "*/a", "**/a", "?/**", "/a", "/*", "/**/a"):
        yield ("below", p)
        yield ("absolute", p)
    for p in patterns(False):
        if "/" not in p and len(p) < 8:
            yield ("string", p)


def parse(p):
    """-> (inverted, anchored, directories only, items)"""
    inv = p.startswith("!")
    p = p[inv:]
    directory = p.endswith("/")
    if directory:
        p = p[:-1]
    anchored = "/" in p
    if p.startswith("/"):
        p = p[1:]
    if not anchored:
        return inv, anchored, directory, items(p)
    comps = p.split("/")
    res = []
    for i, c in enumerate(comps):
        last = i == len(comps) - 1
        if c == "**":
            if len(comps) == 1 or last and comps[i - 1] == "**":
                res.append("all")
            elif last:
                res.append("below")     # includes the preceding slash
            else:
                res.append("dirs")      # includes the following slash
            continue
        res += items(c)
        if not last and not (comps[i + 1] == "**" and i + 1 == len(comps) - 1):
            res.append(("1", lambda c: c == "/"))
    return inv, anchored, directory, res


def items(p):
    i = 0
    while i < len(p):
        c = p[i]
        if c == "*":
            yield ("*", lambda c: c != "/")
        elif c == "?":
            yield ("1", lambda c: c != "/")
        elif c == "\\":
            i += 1
            yield ("1", lambda c, x=p[i]: c == x)
        elif c == "[":
            j = p.index("]", i + (3 if p[i + 1] in "!^" else 2))
            body = p[i + 1:j]
            neg = body[0] in "!^"
            body = body[neg:]
            yield ("1", lambda c, b=body, n=neg: (c != "/") & (no(member(c, b)) if n else member(c, b)))
            i = j
        else:
            yield ("1", lambda c, x=c: c == x)
        i += 1


def member(c, body):
    if len(body) == 3 and body[1] == "-":
        return (c >= body[0]) & (c <= body[2])
    return among(c, body)


def matches(its, text):
    n = len(text)
    cs = [text[i] for i in range(n)]
    reach = [True] + [False] * n
    for it in its:
        new = [False] * (n + 1)
        if it == "all":
            for q in range(1, n + 1):
                new[q] = new[q - 1] | reach[q - 1]
        elif it == "below":
            new[n] = reach[n]
            for q in range(n - 1):
                new[n] = new[n] | (reach[q] & (cs[q] == "/"))
        elif it == "dirs":
            seen = False
            for q in range(n + 1):
                new[q] = reach[q]
                if q:
                    new[q] = new[q] | (seen & (cs[q - 1] == "/"))
                seen = seen | reach[q]
        else:
            q_, pred = it
            if q_ == "1":
                for i in range(n):
                    new[i + 1] = reach[i] & pred(cs[i])
            else:
                new[0] = reach[0]
                for i in range(n):
                    new[i + 1] = reach[i + 1] | (new[i] & pred(cs[i]))
        reach = new
    return reach[n]


def special(text):
    r = text == "."
    return r | (text == "..") if len(text) == 2 else r


def run(env, case):
    what, pattern = case
    inv, anchored, directory, its = parse(pattern)
    its = list(its)
    env.reach("inverted" if inv else "literal")
    if "dirs" in its or "below" in its or "all" in its:
        env.reach("dirs")
    if "*" in pattern:
        env.reach("star")
    if "[" in pattern:
        env.reach("set")
    if "\\" in pattern:
        env.reach("escape")
    if directory:
        env.reach("directory")
    top = 3 if env.thorough else 2
    with active(World()):
        ctx = context("--case", "sensitive")
        if what == "string":
            env.reach("string")
            text = env.text("text", env.pick("len", range(0, 4)), CHARS + "/")
            got = Matcher(ctx, ["probe.str%" + pattern]).test(probe(str=text))
            want = matches(its, text)
        else:
            env.reach("anchored" if anchored else "basename")
            shape = env.pick("shape", ((1,), (2,), (3,)) if not anchored else
                             ((1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)) +
                             (((1, 1, 1, 1),) if "dirs" in its and top < 3 else ()) +
                             (((1, 1, 1, 1), (2, 2, 1)) if top == 3 else ()))
            parts = [env.text(f"name{i}", n, CHARS) for i, n in enumerate(shape)]
            for p in parts:
                env.assume(no(special(p)))
            rel = parts[0]
            for p in parts[1:]:
                rel = rel + "/" + p
            is_dir = env.flag("dir")
            root = {"path": ".", "below": "a", "absolute": "/a"}[what]
            e = entry(rel, Status(mode=0o40755 if is_dir else 0o100644), root=root, absroot="/a")
            path = rel if what == "path" else "a/" + rel
            got = Matcher(ctx, ["path%" + pattern]).test(e)
            want = matches(its, path if anchored else parts[-1])
            if directory and not is_dir:
                want = False
    env.observe(got)
    env.check(got == (no(want) if inv else want), "the glob decides wrongly")
