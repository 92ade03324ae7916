"""C35: representations of numbers."""

import stat

from .common import *

LABELS = ("size", "si", "bytes", "below ten", "above ten", "duration", "hours", "time", "hexadecimal", "octal", "plain",
          "mode", "text", "json", "exec", "total", "largest")
BOUNDS = ("sizes from 0 to 2^64 (thorough: below 1024^9) with base 1024 and 1000, durations to 10^6 (thorough 10^9) seconds, "
          "times in 1970, 1999, 2000, 2024, 2027, 2099 and 2100 (thorough: all from 1970 to 2099) in a time zone without daylight saving time, 16-bit modes, numbers below 10^6; printed as text, "
          "in JSON, as an argument of a command, as a total; real arithmetic instead of binary floating point")
ASSUME = ("floats are reals, except that numbers closer than 10^-12 to the middle may be rounded either way",)
BUDGET = {"quick": 200, "thorough": 2400}

UNITS = ("", "K", "M", "G", "T", "P", "E", "Z", "Y")
WAYS = ("text", "json", "exec", "total")


def cases(tier):
    deep = tier == "thorough"
    for si in (False, True):
        for k in range(9 if deep else 7):
            for way in WAYS:
                yield ("size", si, k, way)
    for way in WAYS:
        for k in range(4 if deep else 3):
            yield ("duration", k, way)
    for way in ("text", "json", "exec"):
        for year in range(1970, 2100) if deep else (1970, 1999, 2000, 2024, 2027, 2099, 2100):
            yield ("time", year, way)
        for kind in ("num", "len", "dur", "when", "bits"):
            for mod in ("x", "o", ""):
                yield ("number", kind, mod, way)
        for kind in (stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, 0):
            yield ("mode", kind, way)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def shown(env, kind, mod, v, way, *argv):
    """What the programme makes of the value v of attribute probe.kind."""
    Probe.values = {}
    Probe.values["f"] = Probe.values["/w/f"] = {kind: v}
    a = f"probe.{kind}" + (":" + mod if mod else "")
    env.reach(way)
    root = D({"w": D({"f": F(b"")})})
    world = ExecWorld(root, lambda n, args: 0) if way == "exec" else World(root)
    if way == "text":
        argv = ("-o", a) + argv
    elif way == "json":
        argv = ("--json", "-o", a) + argv
    elif way == "exec":
        argv = argv + ("-x", "cmd", "<{" + a + "}>")
    else:
        argv = ("--json", "--count=" + a) + argv
    with active(world):
        status = programme(*argv)
        out = world.stdout.text()
    env.check(status == 0, "the search fails")
    if way == "text":
        env.check(len(out) > 1 and out[-1] == "\n", "not a line")
        r = out[:-1]
    elif way == "json":
        r = parse_json(out)[0]["probe." + kind]
    elif way == "exec":
        env.check(len(world.started) == 1, "not one command")
        r = world.started[0][1]
        env.check(r[0] == "<" and r[-1] == ">", "the text around the placeholder is changed")
        r = r[1:-1]
    else:
        r = parse_json(out)["probe." + kind]
    if mod != "h" or kind != "len":
        env.observe(r)
    return r


def number(text, base=10):
    """The number a text denotes, None if it does not."""
    if not len(text):
        return None
    digits = "0123456789abcdef"[:base]
    r = 0
    for c in text:
        if not c in digits:
            return None
        r = r * base + (ord(c) - 48 - 39 * (c >= "a"))
    if len(text) > 1 and text[0] == "0":
        return None
    return r


def run_size(env, si, k, way):
    base = 1000 if si else 1024
    if si:
        env.reach("si")
    top = base ** (k + 1)
    if k == 6 and not env.thorough:
        top = 2 ** 64
    n = env.int("n", base ** k if k else 0, top - 1)
    text = shown(env, "len", "h", n, way, *(["--si"] if si else []))
    env.reach("size")
    suffix = ""
    while len(text) and not (text[-1] in "0123456789"):
        suffix = text[-1] + suffix
        text = text[:-1]
    if not k:
        env.reach("bytes")
        env.check(suffix == "", "a number of bytes with a unit")
        got = number(text)
        env.check(got is not None, "not a number")
        env.check(got == n, "wrong number of bytes")
        return
    unit = suffix[:-1] if si else suffix
    env.check(not si or suffix[-1:] == "B", "wrong unit")
    env.check(any(unit == u for u in UNITS[1:]), "wrong unit")
    unit = base ** [unit == u for u in UNITS].index(True)
    if k == 8 or unit == base ** 6:
        env.reach("largest")
    dot = [c == "." for c in text]
    if any(dot):
        env.reach("below ten")
        i = [bool(x) for x in dot].index(True)
        env.check(len(text) == i + 2, "more than one decimal")
        a, b = number(text[:i]), number(text[i + 1:])
        env.check(a is not None and b is not None, "not a number")
        env.check(a < 10, "a decimal after more than one digit")
        tenths = a * 10 + b
        step = 1
    else:
        env.reach("above ten")
        a = number(text)
        env.check(a is not None, "not a number")
        env.check(a >= 10, "no decimal after a single digit")
        tenths = a * 10
        step = 10
    env.check(tenths >= 10, "less than one of the unit")
    env.check(tenths < base * 10, "a larger unit is reached")
    # less than one in the last place
    env.check(((tenths - step) * unit < n * 10) & (n * 10 < (tenths + step) * unit), "wrong size")


def run_duration(env, k, way):
    lo = (0, 60, 3600, 360000)[k]
    hi = (59, 3599, 359999 if env.thorough else 36000 * 3, 10 ** 9)[k]
    n = env.int("n", lo, hi)
    text = shown(env, "dur", "h", n, way)
    env.reach("duration")
    total, last = 0, None
    num, digits = 0, 0
    for c in text:
        if c in "0123456789":
            num = num * 10 + (ord(c) - 48)
            digits += 1
            continue
        env.check(digits > 0, "a unit without a number")
        env.check(c in "hms", "wrong unit")
        u = "hms".index(c)
        env.check(last is None or u > last, "wrong order of units")
        env.check((u == 0) | (num < 60), "more than 59 minutes or seconds")
        if u == 0:
            env.reach("hours")
        total = total + num * (3600, 60, 1)[u]
        last, num, digits = u, 0, 0
    env.check(digits == 0, "a number without a unit")
    env.check(total == n, "wrong duration")


def days(y, m, d):
    """Days from 1970-01-01."""
    leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
    r = 0
    for i, n in enumerate((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
        r = r + (m > i + 1) * n
    y1 = y - 1
    return r + ((m > 2) & leap) * 1 + d - 1 + y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 - 719162


def run_time(env, year, way):
    n = env.int("n", max(0, days(year, 1, 1) * 86400 - 20000), days(year + 1, 1, 1) * 86400 - 19000)
    text = shown(env, "when", "h", n, way)
    env.reach("time")
    env.check(len(text) == 19, "wrong form of a time")
    for i, c in enumerate("    -  -     :  :  "):
        if c == " " and i != 10:
            env.check(text[i] in "0123456789", "wrong form of a time")
        else:
            env.check(text[i] == c, "wrong form of a time")
    f = []
    for i, j in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19)):
        x = 0
        for c in text[i:j]:
            x = x * 10 + (ord(c) - 48)
        f.append(x)
    y, m, d, h, mi, s = f
    env.check((m >= 1) & (m <= 12) & (d >= 1) & (d <= 31) & (h < 24) & (mi < 60) & (s < 60), "no such time")
    env.check(days(y, m, d) * 86400 + h * 3600 + mi * 60 + s == n + 19800, "wrong time")


def run_number(env, kind, mod, way):
    n = env.int("n", 0, 10 ** 9 if env.thorough else 10 ** 6)
    text = shown(env, kind, mod, n, way)
    if way == "json":
        # numbers remain numbers
        env.check(not isinstance(text, str), "a number is text")
        env.check(text == n, "wrong number")
        return
    env.reach({"x": "hexadecimal", "o": "octal", "": "plain"}[mod])
    got = number(text, {"x": 16, "o": 8, "": 10}[mod])
    env.check(got is not None, "not a number")
    env.check(got == n, "wrong number")


def run_mode(env, kind, way):
    env.reach("mode")
    n = env.bits("n", 12)
    if kind:
        n = n | kind
    Probe.values = {}
    text = shown(env, "bits", "h", n, way)
    env.check(len(text) == 10, "wrong form of a mode")
    env.check(text[0] == {stat.S_IFREG: "-", stat.S_IFDIR: "d", stat.S_IFLNK: "l", 0: "?"}[kind], "wrong kind")
    for i in range(3):
        r, w, x = text[1 + 3 * i:4 + 3 * i]
        env.check((r == "r") == (n & (0o400 >> 3 * i) != 0), "wrong permission to read")
        env.check((w == "w") == (n & (0o200 >> 3 * i) != 0), "wrong permission to write")
        env.check((r == "r") | (r == "-"), "wrong form of a mode")
        env.check((w == "w") | (w == "-"), "wrong form of a mode")
        special = n & (0o4000 >> i) != 0
        may = n & (0o100 >> 3 * i) != 0
        c = "sst"[i]
        env.check((x == "x") == (may & no(special)), "wrong permission to execute")
        env.check((x == c) == (may & special), "wrong permission to execute")
        env.check((x == c.upper()) == (no(may) & special), "wrong permission to execute")
        env.check((x == "-") == (no(may) & no(special)), "wrong permission to execute")
