"""C07: size values, through the query parser and the matcher."""

from .common import *

LABELS = ("plain", "decimal", "refused", "si", "binary", "ib")
BOUNDS = ("numbers of 1-3 (thorough 1-12) integer digits and 0-3 (thorough 0-8) decimals followed by "
          "0-3 arbitrary letters; all strings of 1-4 (thorough 6) characters over '019.kKMbBiI_'; "
          "entry values 0 to 10^40")
BUDGET = {"quick": 80, "thorough": 1500}
UNITS = "KMGTPEZY"
LETTERS = "kKmMgGtTpPeEzZyYbBiIxX"
SOUP = "019.kKMbBiI_"


def cases(tier):
    full = tier == "thorough"
    for attr in ("probe.len", "size"):
        for a in ((1, 2, 3, 6, 12) if full else (1, 3)):
            for b in ((0, 1, 2, 3, 5, 8) if full else (0, 1, 3)):
                for u in range(0, 4):
                    yield (attr, a, b, u)
    for n in range(1, 7 if full else 5):
        yield ("soup", n)


def up(c):
    return ord(c) - 32 * ((c >= "a") & (c <= "z"))


def meaning(text):
    """The number of bytes, or None if the text is no size."""
    i = 0
    n = len(text)
    whole = 0
    while i < n and (text[i] >= "0") & (text[i] <= "9"):
        whole = whole * 10 + ord(text[i]) - 48
        i += 1
    if i == 0:
        return None
    scale = 1
    if i < n and text[i] == ".":
        j = i + 1
        while j < n and (text[j] >= "0") & (text[j] <= "9"):
            whole = whole * 10 + ord(text[j]) - 48
            scale *= 10
            j += 1
        if j == i + 1:
            return None
        i = j
    rest = [up(text[k]) for k in range(i, n)]
    if not rest:
        return whole if scale == 1 else None
    if len(rest) == 1 and scale == 1 and rest[0] == 66:
        return whole
    for e, unit in enumerate(UNITS):
        if rest[0] == ord(unit):
            break
    else:
        return None
    if len(rest) == 1:
        base = 1024
    elif len(rest) == 2 and rest[1] == 66:
        base = 1000
    elif len(rest) == 3 and (rest[1] == 73) & (rest[2] == 66):
        base = 1024
    else:
        return None
    return whole * base ** (e + 1) // scale


def run(env, case):
    if case[0] == "soup":
        attr = "probe.len"
        text = env.text("value", case[1], SOUP)
    else:
        attr, a, b, u = case
        text = env.text("value", a + (b + 1 if b else 0) + u,
                        ["0123456789"] * a + (["."] + ["0123456789"] * b if b else []) +
                        [LETTERS] * u)
    want = meaning(text)
    v = env.int("v", 0, 10 ** 40)
    with active(World()):
        ctx = context()
        e = probe(len=v) if attr == "probe.len" else entry("f", Status(size=v))
        try:
            matcher = Matcher(ctx, [attr + "=" + text])
        except (X.UsageError, X.ExpressionError):
            env.reach("refused")
            env.check(want is None, "a valid size is refused")
            return
        env.check(want is not None, "an invalid size is accepted")
        if case[0] != "soup":
            env.reach("decimal" if case[2] else "plain")
            env.reach(("plain", "binary", "si", "ib")[case[3]])
        got = matcher.test(e)
    env.observe(got)
    env.check(got == (v == want), "the size denotes a different number of bytes")
