"""C06: boolean and file-type words, through the query parser and the matcher."""

import stat

from .common import *

LABELS = ("accepted", "refused", "type", "bool")
BOUNDS = ("boolean value strings of 1-6 (thorough 8) arbitrary characters from printable ASCII and "
          "'ÄſıK', entry value both; built-in boolean attributes hide, exec, samedev with a symbolic "
          "name, mode and device; file-type strings of 1-9 characters over a-z, A-Z, digits and '-', "
          "all 2^16 st_mode values")
BUDGET = {"quick": 60, "thorough": 900}

PRINT = "".join(map(chr, range(33, 127))) + "Äſı\u212a"
TRUE = ("true", "t", "1", "yes", "y", "on")
FALSE = ("false", "f", "0", "no", "n", "off")
TYPES = {"d": "d", "directory": "d", "f": "f", "file": "f", "l": "l", "symlink": "l", "s": "s",
         "socket": "s", "p": "p", "pipe": "p", "fifo": "p", "char": "c", "block": "b",
         "door": None, "port": None, "whiteout": None, "other": "o"}


def cases(tier):
    for n in range(1, 9 if tier == "thorough" else 7):
        yield ("flag", n)
    for attr in ("hide", "exec", "samedev"):
        for n in (1, 2, 3, 4, 5):
            yield (attr, n)
    for n in range(1, 11):
        yield ("type", n)
        if n < 5:
            yield ("kind", n)


def ascii_lower(text):
    return [ord(c) + 32 * ((c >= "A") & (c <= "Z")) for c in text]


def meaning(text):
    """Two conditions: the word means true / false."""
    low = ascii_lower(text)
    t = f = False
    for words, truth in ((TRUE, True), (FALSE, False)):
        for w in words:
            if len(w) == len(low):
                eq = True
                for a, b in zip(low, w):
                    eq = eq & (a == ord(b))
                if truth:
                    t = t | eq
                else:
                    f = f | eq
    return t, f


def run(env, case):
    attr, n = case
    with active(World(D({"w": D({"f": L("x"), ".f": L("x")})}))):
        ctx = context()
        if attr in ("type", "kind"):
            return types(env, ctx, attr, n)
        env.reach("bool")
        # a value starting with "{}" is a file reference (C33)
        text = env.text("word", n, [PRINT.replace("{", "")] + [PRINT] * (n - 1))
        t, f = meaning(text)
        if attr == "flag":
            value = env.bool("value")
            e = probe(flag=value)
            token = "probe.flag=" + text
        elif attr == "hide":
            name = env.text("name", 2, ".a-")
            value = name[0] == "."
            env.assume((name != "..") & (name != "."))
            e = entry(name)
            token = "hide=" + text
        elif attr == "exec":
            bits = env.bits("perm", 12)
            kind = env.pick("type", (stat.S_IFREG, stat.S_IFDIR, stat.S_IFIFO))
            value = (bits & 0o111 != 0) & (kind != stat.S_IFDIR)
            e = entry("f", Status(mode=bits | kind))
            token = "exec=" + text
        else:
            dev = env.int("dev", 0, 10)
            root = env.int("rootdev", 0, 10)
            value = dev == root
            e = entry("f", Status(dev=dev), device=root)
            token = "samedev=" + text
        try:
            matcher = Matcher(ctx, [token])
        except (X.UsageError, X.ExpressionError):
            env.reach("refused")
            env.check((t | f) == False, "a boolean word is refused")  # noqa: E712
            return
        env.reach("accepted")
        env.check(t | f, "a word that is no boolean is accepted")
        got = matcher.test(e)
    env.observe(got)
    env.check(got == (value == t), "boolean test disagrees with the value")


def types(env, ctx, attr, n):
    env.reach("type")
    dom = "abcdefghijklmnopqrstuvwxyzDFLSP0-"
    text = env.text("word", n, dom)
    if attr == "kind":
        # a plugin attribute of this type
        have = env.pick("have", ("directory", "file", "symlink", "fifo", "char", "block", "socket",
                                 "other"))
        e = probe(kind=have)
        matches = {w: (k == have or TYPES[k] == TYPES[have] and TYPES[k] is not None) for w, k in
                   ((w, w) for w in TYPES)}
        token = "probe.kind=" + text
    else:
        mode = env.bits("mode", 16)
        e = entry("f", Status(mode=mode))
        fmt = {"d": 4, "f": 8, "l": 10, "s": 12, "p": 1, "c": 2, "b": 6}
        nibble = mode >> 12
        other = True
        for v in fmt.values():
            other = other & (nibble != v)
        matches = {}
        for w, k in TYPES.items():
            matches[w] = other if k == "o" else False if k is None else nibble == fmt[k]
        token = "type=" + text
    try:
        matcher = Matcher(ctx, [token])
    except (X.UsageError, X.ExpressionError):
        env.reach("refused")
        for w in TYPES:
            env.check(text != w, f"type {w} is refused")
        return
    env.reach("accepted")
    known = False
    want = False
    for w in TYPES:
        known = known | (text == w)
        want = want | ((text == w) & matches[w])
    env.check(known, "an unknown type is accepted")
    got = matcher.test(e)
    env.observe(got)
    env.check(got == want, "type test disagrees with the entry's type")
