"""C02: malformed queries and tests are refused, well-formed ones accepted."""

from libff.find import Find

from .common import *

LABELS = ("well-formed", "refused", "unspecified", "exclude", "single", "attribute", "operator",
          "value")
BOUNDS = ("all token sequences of up to 5 (thorough 7) tokens over a test, AND, OR, NOT and both "
          "kinds of brackets (letter case of the words free), given as query, as exclude tests (up "
          "to 3) or as query together with a depth range; single tests: attribute names of 1-5 "
          "characters, all operators for an attribute of each type, and values of 1-3 characters")
ASSUME = ("superfluous ANDs and a round bracket closed by a curly one are not specified",)
BUDGET = {"quick": 150, "thorough": 2400}

KINDS = ("T", "AND", "OR", "NOT", "(", ")", "{{", "}}")
OPS = {"num": ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"),
       "bits": ("=", ":", "~"), "flag": ("=",), "kind": ("=",), "str": ("=", ":", "~", "%"),
       "list": ("=", ":", "~", "%"), "loc": ("=", ":", "~", "%"),
       "len": ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"),
       "dur": ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"),
       "when": ("=", "+=", "-=", "+", "-", ">=", "<=", ">", "<")}
GOOD = {"num": "1", "bits": "644", "flag": "y", "kind": "f", "str": "a", "list": "a", "loc": "a",
        "len": "1k", "dur": "1h", "when": "1"}
BAD = {"num": ("x", "1x", "-1", "1.5"), "bits": ("8", "u+", "x"), "flag": ("maybe", "2"),
       "kind": ("q", "files"), "len": ("k", "1q", "-1"), "dur": ("h", "1q", "-5"),
       "when": ("x", "1-", "12:")}


def cases(tier):
    full = tier == "thorough"
    for n in range(1, 8 if full else 6):
        for first in KINDS:
            yield ("query", n, first)
            if n < (6 if full else 5):
                yield ("depth", n, first)
            if n < 4:
                yield ("exclude", n, first)
    for n in range(1, 6 if full else 5):
        yield ("attribute", n)
    for kind in OPS:
        yield ("operator", kind)
        if kind in BAD:
            yield ("value", kind)
    for n in range(1, 4):
        yield ("shape", n)


def classify(toks):
    """True: well-formed, False: malformed, None: not specified."""
    stack = []
    need = True
    loose = False
    for i, t in enumerate(toks):
        if t == "T":
            need = False
        elif t == "AND":
            if need or i + 1 == len(toks) or toks[i + 1] in ("AND", "OR", ")", "}}"):
                loose = True
        elif t == "OR":
            if need:
                return False
            need = True
        elif t == "NOT":
            if i + 1 == len(toks) or toks[i + 1] not in ("T", "(", "{{"):
                return False
        elif t in ("(", "{{"):
            stack.append(")" if t == "(" else "}}")
            need = True
        else:
            if not stack or need:
                return False
            if stack.pop() != t:
                loose = True
            need = False
    if stack or need and toks != ["AND"] * len(toks):
        return False
    return None if loose else True


def start(env, tests, exclude, **kw):
    """Set up a search; returns whether it was accepted."""
    try:
        Find(tests, exclude=exclude, jobs=1, cache=None, **kw)
    except (X.UsageError, X.ExpressionError, X.BadAttributeError, X.BadPluginError):
        return False
    return True


def run(env, case):
    what = case[0]
    with active(World(D({"w": D({})}))):
        if what in ("query", "depth", "exclude"):
            return structure(env, *case)
        env.reach("single")
        if what == "attribute":
            name = env.text("name", case[1], "abeimnstuyz.")
            env.reach("attribute")
            got = start(env, [name + "=1"], [])
            names = False
            for p in Registry.attributes:
                if len(p.name) == len(name):
                    names = names | (name == p.name)
                if len(p.plugin + "." + p.name) == len(name):
                    names = names | (name == p.plugin + "." + p.name)
            env.check((got == False) | names, "an unknown attribute is accepted")   # noqa: E712
        elif what == "operator":
            kind = case[1]
            op = env.pick("op", OPS["num"] + (":", "~", "%"))
            env.reach("operator")
            got = start(env, ["probe." + kind + op + GOOD[kind]], [])
            env.observe(got)
            env.check(got == (op in OPS[kind]), "operator support differs from the type's")
        elif what == "value":
            kind = case[1]
            op = env.pick("op", OPS[kind])
            env.reach("value")
            bad = env.pick("bad", BAD[kind])
            got = start(env, ["probe." + kind + op + bad], [])
            env.observe(got)
            env.check(got is False, "an unreadable value is accepted")
            got = start(env, [], ["probe." + kind + op + bad])
            env.check(got is False, "an unreadable value is accepted as exclude test")
        else:
            text = env.text("test", case[1], "num1=+ .")
            op = False
            for c in text:
                op = op | (c == "=") | (c == "+")
            env.assume(no(op))
            got = start(env, [text], [])
            env.check(got is False, "a test without operator is accepted")


def structure(env, what, n, first):
    toks = [first] + [env.pick(f"tok{i}", KINDS) for i in range(1, n)]
    words = ["probe.num=1" if t == "T" else
             env.text(f"word{i}", len(t), [c + c.lower() for c in t]) if t.isalpha() else t
             for i, t in enumerate(toks)]
    want = classify(toks)
    if what == "exclude":
        env.reach("exclude")
        want = all(t == "T" for t in toks)
        got = start(env, ["probe.num=2"], words)
    elif what == "depth":
        # the command line option, which embeds the query
        from libff.arguments import ArgumentsPostProcessor
        args = arguments("-d", "1-2")
        args.tests = words
        try:
            ArgumentsPostProcessor(args).process()
        except X.UsageError:
            got = False
        else:
            got = start(env, args.tests, args.exclude)
    else:
        got = start(env, words, [])
    env.observe(got)
    if want is None:
        env.reach("unspecified")
        return
    env.reach("well-formed" if want else "refused")
    env.check(got == want, "a malformed query is accepted" if got else
              "a well-formed query is refused")
