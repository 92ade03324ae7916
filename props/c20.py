"""C20: the limit option."""

from .common import *

LABELS = ("slice", "page", "malformed", "first", "empty", "negative", "partition")
BOUNDS = ("every argument of up to 5 (thorough 6) characters out of the digits 0, 1, 2, 3, 9 and ':', ',', '-' and '+' "
          "for result lists of 0 to 5 entries, sorted, reversed and unsorted, in text and JSON output and with "
          "-1; page sizes 1 to 4 over lists of up to 9 entries, whose pages must make up the whole list")
BUDGET = {"quick": 150, "thorough": 2400}


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 7 if deep else 6):
        for m in range(0, 6):
            yield ("text", n, m)
    for m in range(0, 4):
        for mode in ("sorted", "reversed", "unsorted"):
            yield ("first", m, mode)
    for size in (1, 2, 3, 4):
        yield ("pages", size)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


def parse(t):
    """(start, stop) or None if the text is no slice."""
    def number(cs, sign):
        if sign and len(cs) and cs[0] == "-":
            v = number(cs[1:], False)
            return None if v is None or v == "" else -v
        v = ""
        for c in cs:
            if not (c >= "0") & (c <= "9"):
                return None
            v = (0 if v == "" else v) * 10 + ord(c) - 48
        return v

    cs = list(t)
    where = [i for i, c in enumerate(cs) if (c == ":") | (c == ",")]
    if len(where) != 1:
        return None
    a, sep, b = cs[:where[0]], cs[where[0]], cs[where[0] + 1:]
    if sep == ",":
        x, y = number(a, False), number(b, False)
        if x is None or y is None or x == "" or y == "":
            return None
        return "page", x * y, x * (y + 1)
    x, y = number(a, True), number(b, True)
    if x is None or y is None:
        return None
    return "slice", 0 if x == "" else x, None if y == "" else y


def listing(n):
    # the directory lists the entries in another order
    return World(D({"w": D({f"f{(i * 2 + 1) % n if n % 2 else n - 1 - i}": F(b"") for i in range(n)})}))


def search(env, n, mode, *argv):
    world = listing(n)
    with active(world):
        extra = {"sorted": ["-S"], "reversed": ["-S", "-R"], "unsorted": []}[mode]
        status = programme(*extra, *argv)
        out = world.stdout.text()
    full = [name for name, _ in world.root.children[0][1].children]
    if mode != "unsorted":
        full.sort(reverse=mode == "reversed")
    return status, out, full


def run_text(env, n, m):
    t = env.text("slice", n, "01239:,-+" if n < 4 else "0139:,-")
    mode = env.pick("mode", ("sorted", "reversed", "unsorted")) if n < 4 else "sorted"
    # With a leading dash it is a value all the same.
    status, out, full = search(env, m, mode, "--limit", t)
    want = parse(t)
    env.observe(status)
    if want is None:
        env.reach("malformed")
        env.check(status == 2, "a malformed slice is accepted")
        env.check(out == "", "a malformed slice produces output")
        return
    kind, x, y = want
    env.reach(kind)
    if x < 0:
        env.reach("negative")
    env.check(status == 0, "a slice is refused")
    if kind == "slice":
        exp = []
        # Python's slicing, spelled out.
        lo = x if x >= 0 else x + m
        hi = m if y is None else y if y >= 0 else y + m
        exp = [e for i, e in enumerate(full) if (lo <= i) & (i < hi)]
    else:
        exp = [e for i, e in enumerate(full) if (x <= i) & (i < y)]
    if not exp:
        env.reach("empty")
    env.check(out == "".join(e + "\n" for e in exp), "the limit selects the wrong entries")


def run_first(env, m, mode):
    env.reach("first")
    how = env.pick("how", ("-1", "-l0:1", "-1 with -0", "--jsonl"))
    argv = {"-1": ["-1"], "-l0:1": ["-l0:1"], "-1 with -0": ["-01"], "--jsonl": ["--jsonl", "-1", "-o", "name"]}[how]
    status, out, full = search(env, m, mode, *argv)
    env.check(status == 0, "-1 fails")
    end = "\0" if how == "-1 with -0" else "\n"
    want = "".join(('{"name": "%s"}\n' % e if how == "--jsonl" else e + end) for e in full[:1])
    env.observe(out)
    env.check(out == want, "not the first entry only")


def run_pages(env, size):
    m = env.pick("m", range(10))
    env.reach("partition")
    got = ""
    for page in range(0, m // size + 1):
        status, out, full = search(env, m, "sorted", "-l", f"{size},{page}")
        env.check(status == 0, "a page fails")
        got += out
    env.observe(got)
    env.check(got == "".join(e + "\n" for e in full), "the pages do not make up the list")
