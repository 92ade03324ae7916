"""C03: numeric comparison operators, through the query parser and the matcher."""

from .common import *

LABELS = ("accepted", "refused", "spaces") + tuple("op" + o for o in
                                                   ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"))
BOUNDS = ("one test <attr><op><number> with numbers of 1-6 (thorough: 1-15) decimal digits, up to two "
          "blanks or tabs at each of the four places white space may stand (quick: one), attributes "
          "of the types number, size, time and duration and the stat-backed file attributes; entry "
          "values are all integers 0 to 10^18; refusals: all value strings of 1-3 (thorough 4) "
          "characters over '0123456789-.xeE/ '")
ASSUME = ("signed, underscored and non-ASCII digit strings are outside the property except that "
          "negative numbers are refused",)
BUDGET = {"quick": 80, "thorough": 1200}

OPS = ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<")
KINDS = ("num", "when", "dur", "len", "links", "size", "time", "mtime", "ctime", "atime", "uid",
         "gid", "inode", "device", "depth")


def cases(tier):
    full = tier == "thorough"
    for kind in KINDS:
        for n in ((1, 2, 3, 6, 10, 15) if full else (2, 6)):
            if kind == "depth" and n > 2:
                continue
            yield ("num", kind, n)
    for ws in ([(a, b, c, d) for a in range(3) for b in range(3) for c in range(3) for d in range(3)]
               if full else [(1, 1, 1, 1), (0, 1, 0, 0), (0, 0, 1, 1), (1, 0, 0, 0)]):
        yield ("space", "num", ws)
        yield ("space", "links", ws)
    for kind in ("len", "dur", "when", "size", "time"):
        for ws in (0, 0, 1, 0), (1, 1, 1, 0), (0, 1, 1, 0):
            yield ("space", kind, ws)
    for kind in ("num", "links"):
        for n in range(1, 5 if full else 4):
            yield ("bad", kind, n)


def build(kind, value):
    """An entry whose attribute `kind` is `value`."""
    st = {"links": "nlink", "size": "size", "time": "mtime", "inode": "ino", "device": "dev"}
    if kind in ("num", "when", "dur", "len"):
        return probe(**{kind: value})
    if kind == "depth":
        return None
    return entry("f", Status(**{st.get(kind, kind): value}))


def compare(op, a, b):
    if op == "=":
        return a == b
    if op in ("+=", ">="):
        return a >= b
    if op in ("-=", "<="):
        return a <= b
    if op in ("+", ">"):
        return a > b
    return a < b


def run(env, case):
    what, kind, arg = case
    attr = "probe." + kind if kind in ("num", "when", "dur", "len") else kind
    op = env.pick("op", OPS)
    if what == "num":
        digits = env.text("digits", arg, "0123456789")
        token = attr + op + digits
    elif what == "space":
        digits = env.text("digits", 3, "0123456789")
        w = [env.text(f"ws{i}", n, " \t") for i, n in enumerate(arg)]
        token = w[0] + attr + w[1] + op + w[2] + digits + w[3]
        env.reach("spaces")
    else:
        digits = env.text("value", arg, "0123456789-.xeE/ ")
        token = attr + op + digits
    if what == "bad":
        value = refuse_oracle(digits, op)
        if value == "skip":
            return
    else:
        value = 0
        for d in list(digits):
            value = value * 10 + ord(d) - 48
    if kind == "dur":
        value = value * 60      # a bare duration is in minutes
    with active(World()):
        ctx = context()
        if kind == "depth":
            n = env.pick("depth", range(12))
            e = entry("/".join(["d"] * n + ["f"]))
            v = n
        else:
            v = env.int("v", 0, 10 ** 18)
            e = build(kind, v)
        try:
            matcher = Matcher(ctx, [token])
        except (X.UsageError, X.ExpressionError):
            env.reach("refused")
            env.check(value is None, "a valid number is refused")
            return
        env.reach("accepted")
        env.check(value is not None, "an invalid number is accepted")
        if value is None:
            return
        env.reach("op" + op)
        got = matcher.test(e)
    env.observe(got)
    env.check(got == compare(op, v, value), f"{op} compares wrongly")


def refuse_oracle(text, op):
    """The number, None if it must be refused, or "skip"."""
    text = text.strip(" ")
    if not text:
        return "skip"
    digits = True
    for c in text:
        if not "0" <= c <= "9":
            digits = False
    if digits:
        value = 0
        for d in list(text):
            value = value * 10 + ord(d) - 48
        return value
    if text[0] == "-":
        rest = text[1:]
        if not rest:
            return None
        zero = True
        for c in rest:
            if c != "0":
                zero = False
        return "skip" if zero else None
    return None
