"""C01: boolean structure of queries, through the parser and the matcher."""

from .common import *

LABELS = ("or", "not", "bracket", "nested", "missing", "empty", "true", "false", "twins")
BOUNDS = ("every well-formed token sequence of up to 7 (thorough 10) tokens over tests, AND, OR, NOT "
          "and both kinds of brackets nested to depth 3, and ten longer ones of up to 18 tokens; letter case of the operator words free; "
          "every test has an attribute of its own with all outcomes, two of them may have no value; "
          "plugins of different speed; entries of the same relative path in different directories")
BUDGET = {"quick": 150, "thorough": 2400}

# One test per position; (attribute, given value); the entry's value is 0 or 1.
TESTS = ("probe.num=1", "size=1", "probe.str=x", "links=1", "slow.a=1", "uid=1", "probe.text=x",
         "probe.len=1")


class Slow(Plugin):
    """A plugin whose tests the optimizer puts last."""
    speed = Speed.SLOW
    attributes = [("a", Number, "")]
    values = {}

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        yield from self.values.items()


_warm = warm


def warm():
    _warm()
    ctx = Context()
    ctx.args = create_parser().parse_args([])
    ctx.global_lock = W.SeqLock()
    ctx.logger = Logger()
    ctx.logger.debug_categories = ["none"]
    reg = Registry(ctx)
    if "slow" not in reg.registered_plugins:
        reg.register_plugin("harness", __file__, Slow)
        reg.attributes[Attribute("slow", "a")] = Number


# Longer queries than the generated ones.
SHAPES = (
    "T OR T OR T OR T OR T OR T",
    "NOT ( T OR T OR T OR T )",
    "NOT ( T T OR T T OR NOT T T )",
    "( T OR T OR T ) ( T OR T OR NOT T )",
    "T {{ T OR T T OR T }} OR NOT ( T OR ( T OR T ) )",
    "NOT ( NOT ( T OR T ) OR T AND NOT {{ T OR T OR T }} )",
    "( ( T OR T ) ( T OR T ) OR ( T ( T OR T ) ) )",
    "T AND T AND T AND T AND T AND T OR T AND T",
    "NOT T NOT T NOT T NOT T OR NOT T NOT T",
    "T OR ( T OR ( T OR ( T OR ( T T ) ) ) )",
)


def cases(tier):
    for shape in SHAPES:
        yield (0, shape)
    yield ("twins",)
    top = 10 if tier == "thorough" else 7
    for n in range(0, top + 1):
        # split by the first token to spread the work
        for first in ("T", "NOT", "(", "{{") if n else ("",):
            yield (n, first)


def generate(env, n, first):
    """A well-formed sequence of n tokens."""
    toks = []
    stack = []
    need = True
    while len(toks) < n:
        left = n - len(toks)
        opts = []
        if need:
            # T, NOT T, ( T ): the shortest completions
            if left >= 1 + len(stack):
                opts.append("T")
            if left >= 2 + len(stack) and not (toks and toks[-1] == "NOT"):
                opts.append("NOT")
            if left >= 3 + len(stack) and len(stack) < 3:
                opts += ["(", "{{"]
        else:
            if left >= 1 + len(stack):
                opts.append("T")
            if left >= 2 + len(stack):
                opts += ["AND", "OR", "NOT"]
            if left >= 3 + len(stack) and len(stack) < 3:
                opts.append("(")
            if stack:
                opts.append(")")
        if not toks:
            if first not in opts:
                return None
            tok = first
        elif len(opts) == 1:
            tok = opts[0]
        else:
            tok = env.pick(f"tok{len(toks)}", opts)
        if tok == "T":
            need = False
        elif tok in ("AND", "OR", "NOT"):
            need = True
        elif tok in ("(", "{{"):
            stack.append(")" if tok == "(" else "}}")
            need = True
        else:
            tok = stack.pop()
            need = False
        toks.append(tok)
    if need and n or stack:
        return None
    return toks


def evaluate(toks, truth):
    """Recursive descent: or > and > not > operand."""
    pos = [0]

    def disj():
        r = conj()
        while pos[0] < len(toks) and toks[pos[0]] == "OR":
            pos[0] += 1
            r = r | conj()
        return r

    def conj():
        r = neg()
        while pos[0] < len(toks) and toks[pos[0]] not in ("OR", ")", "}}"):
            if toks[pos[0]] == "AND":
                pos[0] += 1
            r = r & neg()
        return r

    def neg():
        if toks[pos[0]] == "NOT":
            pos[0] += 1
            return no(neg())
        if toks[pos[0]] in ("(", "{{"):
            pos[0] += 1
            r = disj()
            pos[0] += 1
            return r
        pos[0] += 1
        return truth[pos[0] - 1]

    return disj()


def run_twins(env):
    """Entries of the same name in different start directories, and one entry that is tested repeatedly."""
    env.reach("twins")
    v = [env.bool(f"v{i}") for i in range(3)]
    with active(World()):
        ctx = context()
        es = [entry("d/f", root=root, absroot="/" + root) for root in ("x", "y", "d")]
        for e, x in zip(es, v):
            Probe.values[e.path] = {"num": x * 1}
        Slow.values = {}
        matcher = Matcher(ctx, ["probe.num=1", "AND", "NOT", "slow.a=1"] if env.flag("slow") else ["probe.num=1"])
        excluder = Excluder(ctx, ["probe.num=1"])
        order = env.pick("order", ((0, 1, 2), (2, 1, 0), (1, 0, 2, 1, 0)))
        got = [(matcher.test(es[i]), excluder.test(es[i])) for i in order]
    env.observe(got)
    for i, (a, b) in zip(order, got):
        env.check((a == v[i]) & (b == v[i]), "the query selects the wrong entries")


def run(env, case):
    if case[0] == "twins":
        return run_twins(env)
    n, first = case
    toks = generate(env, n, first) if n or not first else first.split()
    if toks is None:
        return
    if not toks:
        env.reach("empty")
    if "OR" in toks:
        env.reach("or")
    if "NOT" in toks:
        env.reach("not")
    if "(" in toks or "{{" in toks:
        env.reach("bracket")
    for a, b in zip(toks, toks[1:]):
        if a in ("(", "{{") and b in ("(", "{{"):
            env.reach("nested")
    words = []
    truth = {}
    st = {}
    values = {}
    slow = {}
    k = 0
    for i, t in enumerate(toks):
        if t == "T":
            test = TESTS[k % len(TESTS)]
            k += 1
            attr = test.partition("=")[0]
            v = env.bool(f"v{i}")
            truth[i] = v
            words.append(test)
            if attr in ("probe.str", "probe.text"):
                if env.flag(f"missing{i}"):
                    env.reach("missing")
                    truth[i] = False
                else:
                    values[attr[6:]] = "x" if v else "y"
            elif attr.startswith("probe."):
                values[attr[6:]] = v * 1
            elif attr == "slow.a":
                slow["a"] = v * 1
            else:
                st["nlink" if attr == "links" else attr] = v * 1
        elif t in ("AND", "OR", "NOT"):
            words.append(t if " " in first else env.text(f"word{i}", len(t), [c + c.lower() for c in t]))
        else:
            words.append(t)
    with active(World()):
        ctx = context()
        e = probe(Status(**st), **values)
        Slow.values = slow
        matcher = Matcher(ctx, words)
        got = matcher.test(e)
    env.observe(got)
    want = evaluate(toks, truth) if toks else True
    env.reach("true" if got else "false")
    env.check(got == want, "the query selects the wrong entries")
