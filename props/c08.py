"""C08: durations and points in time, through the query parser and the matcher."""

import datetime

from .common import *

LABELS = ("duration", "minutes", "refused", "epoch", "date", "clock", "clock-today",
          "clock-yesterday", "ago", "no date", "summer")
BOUNDS = ("durations: up to 3 (thorough 4) groups of 1-2 (thorough 3) digits and any unit, bare "
          "numbers of 1-7 digits, all strings of 1-4 (thorough 5) characters over '09smhdwMyxH .-'; "
          "times: integers of 1-12 digits, numbers with a fraction .0/.5, the eight documented "
          "patterns with every digit free (years 2000-2099, thorough also 1900-1999), clock = any "
          "second of one of five days including leap day and year end; durations before now")
ASSUME = ("local time is a zone with the constant offset +05:30, or the same with summer time (years 2023-2027); times "
          "that the change of the clocks skips or repeats are outside",
          "single-digit fields and surrounding characters strptime tolerates are not specified")
BUDGET = {"quick": 150, "thorough": 1800}

SECS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800, "M": 2592000, "y": 31536000}
DIGITS = "0123456789"
SOUP = "09smhdwMyxH .-"
OFFSET = 19800
DAYS = ((2024, 3, 1), (2024, 2, 29), (2025, 1, 1), (2023, 12, 31), (2023, 7, 14))
CHANGES = ((2024, 3, 31), (2024, 4, 1), (2024, 10, 27), (2024, 10, 28), (2023, 7, 14))
FORMATS = ("Y-m-d H:M:S", "Y-m-d H:M", "YmdHM", "Y-m-d", "Ymd", "H:M:S", "H:M", "HM")


def cases(tier):
    full = tier == "thorough"
    for attr in ("dur", "when"):
        for n in range(1, (6 if full else 5) if attr == "dur" else 4):
            yield ("soup", attr, n)
        for groups in range(1, 5 if full else 4):
            for k in range(1, 4 if full else 3):
                yield ("groups", attr, groups, k)
    for n in range(1, 8):
        yield ("minutes", n)
    for n in (1, 2, 3, 5, 6, 7, 9, 10, 11):
        yield ("epoch", n, "")
        if n in (3, 10):
            yield ("epoch", n, ".0")
            yield ("epoch", n, ".5")
    for fmt in FORMATS:
        for century in ("20", "19") if full and "Y" in fmt else ("20",):
            for day in range(len(DAYS)) if "Y" not in fmt else (0,):
                yield ("format", fmt, century, day)
    for fmt in ("Y-m-d H:M:S", "Y-m-d", "YmdHM", "Ymd") if full else ("Y-m-d H:M:S", "Ymd"):
        yield ("summer", fmt, "20", 0)
    for fmt in ("H:M:S", "H:M", "HM") if full else ("H:M", "HM"):
        for day in range(len(CHANGES)):
            yield ("summer", fmt, "20", day)


class Clock(World):
    """A world whose local date is fixed and whose time of day may be symbolic."""

    def __init__(self, env, day, sod, summer):
        super().__init__()
        self.today = day
        self.clock = utc(env, (datetime.date(*day).toordinal() - 719163) * 86400 + sod, summer)


def utc(env, local, summer):
    """The seconds since epoch of a local time that exists once."""
    if not summer:
        return local - OFFSET
    r = False
    for a, b in SUMMERS:
        env.assume(no((local >= a + OFFSET) & (local < a + OFFSET + 3600)) &
                   no((local >= b + OFFSET) & (local < b + OFFSET + 3600)))
        r = r | (local >= a + OFFSET) & (local < b + OFFSET)
    if r:
        env.reach("summer")
        return local - OFFSET - 3600
    return local - OFFSET


def number(digits):
    v = 0
    for c in digits:
        v = v * 10 + ord(c) - 48
    return v


def duration(text):
    """Seconds, or None if it is no duration (may branch)."""
    i, n = 0, len(text)
    total = 0
    if n == 0:
        return None
    while i < n:
        v = 0
        j = i
        while j < n and (text[j] >= "0") & (text[j] <= "9"):
            v = v * 10 + ord(text[j]) - 48
            j += 1
        if j == i:
            return None
        if j == n:
            return v * 60 if i == 0 else None
        for u, s in SECS.items():
            if text[j] == u:
                total = total + v * s
                break
        else:
            return None
        i = j + 1
    return total


def run(env, case):
    if case[0] == "summer":
        with summer(env):
            decide(env, case)
    else:
        decide(env, case)


def decide(env, case):
    sod = env.int("sod", 0, 86399)
    kind = case[0]
    day = DAYS[case[3]] if kind == "format" else CHANGES[case[3]] if kind == "summer" else DAYS[0]
    w = Clock(env, day, sod, kind == "summer")
    now = w.clock
    attr = "when"
    if kind == "soup":
        attr = case[1]
        text = env.text("value", case[2], [SOUP] * case[2])
        if attr == "when":
            # numbers (C03), and nothing a date pattern could match
            number_like = True
            digit = False
            for c in text:
                digit = digit | ((c >= "0") & (c <= "9"))
                number_like = number_like & (((c >= "0") & (c <= "9")) | (c == ".") | (c == "-") |
                                             (c == " "))
            env.assume(no(number_like & digit))
        want = duration(text.strip(" "))
    elif kind == "groups":
        attr = case[1]
        text = env.text("value", case[2] * (case[3] + 1),
                        ([DIGITS] * case[3] + ["smhdwMy"]) * case[2])
        want = 0
        step = case[3] + 1
        for g in range(case[2]):
            unit = text[g * step + case[3]]
            v = number(text[g * step:g * step + case[3]])
            for u, s in SECS.items():
                want = want + (unit == u) * (v * s)
        env.reach("duration")
    elif kind == "minutes":
        attr = "dur"
        text = env.text("value", case[1], DIGITS)
        want = number(text) * 60
        env.reach("minutes")
    elif kind == "epoch":
        digits = env.text("value", case[1], DIGITS)
        text = digits + case[2]
        want = number(digits)
        env.reach("epoch")
    else:
        want, text = pattern(env, case, day, sod)
    if attr == "when" and kind in ("soup", "groups"):
        if want is not None:
            want = now - want
        env.reach("ago")
    v = env.int("v", -10 ** 12, 10 ** 14)
    with active(w):
        ctx = context()
        e = probe(dur=v) if attr == "dur" else probe(when=v)
        try:
            matcher = Matcher(ctx, [f"probe.{attr}=" + text])
        except (X.UsageError, X.ExpressionError):
            env.reach("refused")
            env.check(want is None, "a valid value is refused")
            return
        if want is None:
            env.fail("an invalid value is accepted")
            return
        got = matcher.test(e)
    env.observe(got)
    env.check(got == (v == want), "the value denotes something else")


def pattern(env, case, day, sod):
    kind, fmt, century, _ = case
    kind = kind == "summer"
    doms = []
    pos = {}
    for c in fmt:
        if c == "Y":
            pos["Y"] = len(doms)
            doms += [century[0], century[1], "2" if kind else DIGITS, "34567" if kind else DIGITS]
        elif c in "mdHMS":
            pos[c] = len(doms)
            doms += [DIGITS, DIGITS]
        else:
            doms.append(c)
    text = env.text("value", len(doms), doms)
    f = {c: number(text[p:p + (4 if c == "Y" else 2)]) for c, p in pos.items()}
    y, mo, d = f.get("Y", 2000), f.get("m", 1), f.get("d", 1)
    h, mi, s = f.get("H", 0), f.get("M", 0), f.get("S", 0)
    leap = (y % 4 == 0) & (y != 1900)
    last = 31 - ((mo == 4) | (mo == 6) | (mo == 9) | (mo == 11)) * 1 - (mo == 2) * 3 + \
        ((mo == 2) & leap) * 1
    valid = (mo >= 1) & (mo <= 12) & (d >= 1) & (d <= last) & (h < 24) & (mi < 60) & (s < 60)
    if not valid:
        env.reach("no date")
        # without separators it is still a number
        return (number(text) if fmt in ("YmdHM", "Ymd", "HM") else None), text
    if "Y" in fmt:
        env.reach("date")
        # days since 1970-01-01 by adding up years and months
        days = 365 * (y - 1970) + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400
        for m, n in ((1, 31), (2, 28), (3, 31), (4, 30), (5, 31), (6, 30), (7, 31), (8, 31),
                     (9, 30), (10, 31), (11, 30)):
            days = days + (mo > m) * n
        days = days + ((mo > 2) & leap) * 1 + d - 1
        return utc(env, days * 86400 + h * 3600 + mi * 60 + s, kind), text
    env.reach("clock")
    t = h * 3600 + mi * 60 + s
    midnight = (datetime.date(*day).toordinal() - 719163) * 86400
    if t > sod:
        env.reach("clock-yesterday")
        midnight -= 86400
    else:
        env.reach("clock-today")
    return utc(env, midnight + t, kind), text
