"""C29: the command line."""

from libff import MAX_CPU
from libff.arguments import parse_arguments

from .common import *

LABELS = ("separate", "attached", "equals", "bundle", "refused", "default value", "append", "remainder", "order", "unknown",
          "missing", "positional", "intermixed", "environment", "programme", "choice", "flag")
BOUNDS = ("every option of the real option table in every spelling, bundles of up to two flags and a last option, pairs of "
          "options in both orders, option values of up to 3 (thorough 4) symbolic characters, unknown options of up to 3 "
          "symbolic characters, remainders and positional arguments of up to 3 symbolic words")
BUDGET = {"quick": 200, "thorough": 3000}

INVALID = "<invalid>"


# What the options mean, written down independently of the code: name -> (spellings, kind, dest,
# meaning of the value, characters the value may contain)
def t_str(s):
    return s


def strip(s):
    while len(s) and (s[0] == " "):
        s = s[1:]
    while len(s) and (s[-1] == " "):
        s = s[:-1]
    return s


def parts(s):
    out = [""]
    for c in s:
        if c == ",":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return [strip(x) for x in out]


def t_list(s):
    return parts(s)


def digits(s):
    r = True
    for c in s:
        r = r & ("0" <= c) & (c <= "9")
    return r


def number(s):
    n = 0
    for c in s:
        n = n * 10 + (ord(c) - 48)
    return n


def t_jobs(s):
    if not len(s) or not digits(s):
        return INVALID
    n = number(s)
    if n == 0 or n > MAX_CPU:
        return MAX_CPU
    return n


def t_ranges(s):
    out = []
    for p in parts(s):
        n = [i for i in range(len(p)) if p[i] == "-"]
        if not n:
            if not len(p) or not digits(p):
                return INVALID
            out.append((number(p), number(p)))
            continue
        if len(n) > 1:
            return INVALID
        a, b = p[:n[0]], p[n[0] + 1:]
        if not digits(a) or not digits(b):
            return INVALID
        if not len(b):
            out.append((number(a), None))
        else:
            x, y = number(a), number(b)
            if y < x:
                x, y = y, x
            out.append((x, y))
    return out


def t_slice(s):
    for i in range(len(s)):
        if s[i] == ":":
            out = []
            for p in (s[:i], s[i + 1:]):
                neg = len(p) > 0 and p[0] == "-"
                if neg:
                    p = p[1:]
                    if not len(p):
                        return INVALID
                if not digits(p):
                    return INVALID
                out.append(None if not len(p) else -number(p) if neg else number(p))
            return (out[0] if out[0] is not None else 0, out[1])
        if s[i] == ",":
            a, b = s[:i], s[i + 1:]
            if not len(a) or not len(b) or not digits(a) or not digits(b):
                return INVALID
            return (number(a) * number(b), number(a) * (number(b) + 1))
    return INVALID


def choice(*words):
    def check(s):
        for w in words:
            if s == w:
                return w
        return INVALID
    check.words = words
    return check


FLAGS = {
    "--hide": ("-H", "hide", True), "--ignore": ("-I", "ignore", True), "--follow": ("-L", "follow_symlinks", True),
    "--absolute-path": ("-a", "absolute_path", True), "--reverse": ("-R", "reverse", True),
    "--print0": ("-0", "newline", "\0"), "--verbose": ("-v", "output", ["mode:h", "links", "user:h", "group:h", "size:5h",
                                                                         "time:h", "path:h"]),
    "-1": ("-1", "limit", (0, 1)),
    "--no-cache": (None, "cache", None), "--clean-cache": (None, "action", "clean"), "--version": (None, "action", "version"),
    "--help-full": (None, "action", "full"), "--help-attributes": (None, "action", "attributes"),
    "--help-plugins": (None, "action", "plugins"), "--help-types": (None, "action", "types"),
    "--no-parent-ignore": (None, "no_parent_ignore", True), "--one-file-system": (None, "one_file_system", True),
    "--mount": (None, "one_file_system", True), "--xdev": (None, "one_file_system", True), "--fail": (None, "fail", True),
    "--all": (None, "all", True), "--json": (None, "json", "json"), "--jsonl": (None, "json", "jsonl"),
    "--ndjson": (None, "json", "jsonl"), "--si": (None, "si", True),
}
ANY = "a-=,\xe9\udc80"
VALUES = {          # long: short, dest, meaning, characters
    "--cache": (None, "cache", t_str, ANY),
    "--jobs": ("-j", "jobs", t_jobs, "0129-x"),
    "--directory": ("-D", "directories", t_str, ANY),
    "--exclude": ("-e", "exclude", t_str, ANY),
    "--ignore-files": (None, "ignore_files", lambda s: set(t_list(s)), "a, b"),
    "--depth": ("-d", "depth", t_ranges, "017-,x"),
    "--case": ("-c", "case", choice("smart", "ignore", "sensitive"), None),
    "--halt": (None, "halt", choice("never", "soon", "now"), None),
    "--halt-on-error": (None, "halt", choice("never", "soon", "now"), None),
    "--color": ("-C", "color", choice("auto", "never", "always"), None),
    "--limit": ("-l", "limit", t_slice, "017-,:x"),
    "--output": ("-o", "output", t_list, "ab, -"),
    "--sep": (None, "separator", t_str, ANY),
}
OPTIONAL = {
    "--sort": ("-S", "sort", t_list, "ab, -", ["file.path"]),
    "--count": (None, "count", t_list, "ab, -", [""]),
    "--help": ("-h", "help", t_str, ANY, "all"),
}
APPEND = ("--directory", "--exclude")


def cases(tier):
    top = 4 if tier == "thorough" else 3
    for o in FLAGS:
        yield ("flag", o)
    for o in VALUES:
        for n in range(0, top + 1):
            yield ("value", o, n, "separate")
            yield ("value", o, n, "equals")
            if VALUES[o][0] and n:
                yield ("value", o, n, "attached")
        yield ("missing", o)
    for o in OPTIONAL:
        for n in range(0, top):
            yield ("value", o, n, "separate")
            yield ("value", o, n, "equals")
            if OPTIONAL[o][0] and n:
                yield ("value", o, n, "attached")
        yield ("optional", o)
    yield ("table",)
    for last in (None, "--jobs", "--directory", "--depth", "--limit", "--output", "--sort", "--help", "--exec", "--case"):
        yield ("bundle", last, 1)
        yield ("bundle", last, 2)
    for n in (1, 2, 3):
        yield ("append", n)
    for o in ("--exec", "--exec-batch"):
        for n in (0, 1, 2, 3):
            yield ("remainder", o, n)
    shorts = [o for o in FLAGS if FLAGS[o][0]] + ["--fail", "--json"]
    for o in shorts:
        yield ("order", o)
    for n in (1, 2, 3):
        yield ("unknown", "-", n)
        yield ("unknown", "--", n)
    yield ("unknown", "=", 2)
    for n in (0, 1, 2, 3):
        yield ("positional", n)
    yield ("intermixed",)
    for n in (1, 2, 3):
        yield ("environment", n)
    for bad in ("value", "choice", "unknown", "missing", "environment", "noarg"):
        yield ("programme", bad)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


class Refused(Exception):
    pass


def parse(argv):
    """The Namespace for an argument vector."""
    world = World(D({"w": D({})}))
    with active(world):
        parser = create_parser()
        before = list(argv)
        try:
            args = parser.parse_args(argv)
        except SystemExit as exc:
            if exc.code != 2:
                raise AssertionError("refused with another status")
            err = world.stderr.text()
            if "usage:" not in err or "error:" not in err:
                raise AssertionError("refused without a message")
            raise Refused
        if len(before) != len(argv):
            raise AssertionError("the caller's arguments are modified")
    return args


def outcome(argv):
    try:
        return parse(argv)
    except Refused:
        return None


_defaults = {}


def defaults():
    if not _defaults:
        _defaults.update(parse([]))
    return _defaults


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = r & same(x, y)
        return r
    if isinstance(a, set) or isinstance(b, set):
        if not (isinstance(a, set) and isinstance(b, set)):
            return False
        return all(any(x == y for y in b) for x in a) and all(any(x == y for y in a) for x in b)
    if a is None or b is None:
        return a is b
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def expect(env, args, **changed):
    """args is the default namespace except for some values."""
    env.check(args is not None, "a correct command line is refused")
    want = dict(defaults())
    want.update(changed)
    for k, v in want.items():
        env.check(k in args, "a value is missing from the namespace")
        env.check(same(args[k], v), "wrong value of " + k)


def alike(env, a, b):
    env.check((a is None) == (b is None), "only one of two equivalent command lines is refused")
    if a is not None:
        env.check(sorted(a) == sorted(b), "different sets of values")
        for k in a:
            env.check(same(a[k], b[k]), "equivalent command lines set different " + k)


def run_flag(env, o):
    env.reach("flag")
    short, dest, value = FLAGS[o]
    expect(env, outcome([o]), **{dest: value})
    if short:
        expect(env, outcome([short]), **{dest: value})
    if o.startswith("--"):
        env.check(outcome([o + "=" + env.text("v", 1, "a1")]) is None, "a flag takes a value")
        env.reach("refused")


def value_of(env, o, n, name="v"):
    info = VALUES.get(o) or OPTIONAL[o]
    if info[3] is None:
        words = info[2].words
        k = env.pick(name + "k", tuple(range(len(words))) + (-1,))
        env.reach("choice")
        return words[k] if k >= 0 else env.text(name, n, "snxe")
    return env.text(name, n, info[3])


def run_value(env, o, n, how):
    env.reach(how)
    info = VALUES.get(o) or OPTIONAL[o]
    v = value_of(env, o, n)
    if o == "--jobs" and n and how != "x":
        env.assume(v[0] != "-" if n == 1 else (v[0] != "-") | (v[1] != "0"))     # "-0" is left open
    if how == "separate":
        if o in OPTIONAL and n and v[0] == "-":
            return
        argv = [env.pick("name", (o, info[0])) if info[0] else o, v]
    elif how == "equals":
        argv = [o + "=" + v]
    else:
        argv = [info[0] + v]
    want = info[2](v)
    args = outcome(argv)
    if want is INVALID or want == INVALID:
        env.reach("refused")
        env.check(args is None, "an invalid value is accepted")
    else:
        if o in APPEND:
            want = [want]
        expect(env, args, **{info[1]: want})


def run_optional(env, o):
    env.reach("default value")
    info = OPTIONAL[o]
    nxt = env.pick("next", (None, "-H", "--fail"))
    name = env.pick("name", (o, info[0])) if info[0] else o
    argv = [name] + ([nxt] if nxt else [])
    more = {"-H": {"hide": True}, "--fail": {"fail": True}, None: {}}[nxt]
    expect(env, outcome(argv), **{info[1]: info[4]}, **more)


def run_missing(env, o):
    env.reach("missing")
    before = env.pick("before", ([], ["-H"], ["a"]))
    name = env.pick("name", (o, VALUES[o][0])) if VALUES[o][0] else o
    env.check(outcome(before + [name]) is None, "a missing value is accepted")
    if VALUES[o][0]:
        env.check(outcome(before + ["-H" + VALUES[o][0][1]]) is None, "a missing value is accepted")


def run_table(env):
    """The table above is complete."""
    with active(World(D({"w": D({})}))):
        parser = create_parser()
    names = {s for o in parser.options for s in o.strings if s.startswith("-")}
    known = set(FLAGS) | set(VALUES) | set(OPTIONAL) | {"--exec", "--exec-batch", "-x", "-X"}
    known |= {v[0] for t in (FLAGS, VALUES, OPTIONAL) for v in t.values() if v[0]}
    env.check(known <= names, "an option is missing")
    env.reach("separate")


def run_bundle(env, last, n):
    env.reach("bundle")
    shorts = [o for o in FLAGS if FLAGS[o][0]]
    fs = [env.pick(f"flag{i}", tuple(shorts)) for i in range(n)]
    bundle = "-" + "".join(FLAGS[f][0][1] for f in fs)
    plain = list(fs)
    tail = []
    if last is not None:
        info = VALUES.get(last) or OPTIONAL.get(last) or ("-x",)
        bundle += info[0][1]
        how = env.pick("how", ("attached", "separate", "none") if last in OPTIONAL else ("attached", "separate"))
        if last == "--exec":
            v = env.text("v", 2, "aH-")
        elif how != "none":
            v = value_of(env, last, 1 if last in OPTIONAL else 2)
        if how == "attached":
            bundle += v
            if last in OPTIONAL:
                env.assume(v[0] != "-")     # cannot be written separately
            plain += [last, v]
        elif how == "separate":
            tail = [v]
            plain += [last, v]
        else:
            plain += [last]
    elif n == 1:
        return
    after = env.pick("after", ([], ["--fail"]))
    alike(env, outcome([bundle] + tail + after), outcome(plain + after))
    # an unknown letter or a flag that is none
    bad = env.pick("bad", ("z", "-", "=")) if n == 1 and last is None else "z"
    env.check(outcome(["-" + bad + bundle[1:]] + tail) is None, "an unknown option in a bundle is accepted")
    env.reach("refused")


def run_append(env, n):
    env.reach("append")
    argv, want = [], {"directories": [], "exclude": []}
    for i in range(n):
        o = env.pick(f"o{i}", APPEND)
        v = env.text(f"v{i}", 1, "a-=")
        how = env.pick(f"how{i}", ("separate", "attached", "equals"))
        argv += {"separate": [o, v], "attached": [VALUES[o][0] + v], "equals": [o + "=" + v]}[how]
        want[VALUES[o][1]].append(v)
    expect(env, outcome(argv), **want)


def run_remainder(env, o, n):
    env.reach("remainder")
    dest = o[2:].replace("-", "_")
    words = [env.text(f"w{i}", 2, "a-xH=") for i in range(n)]
    flag = env.flag("before")
    argv = ["--fail"] * flag + [env.pick("name", (o, "-x" if o == "--exec" else "-X"))]
    args = outcome(argv + words)
    if n == 0:
        env.reach("missing")
        env.check(args is None, "a command line without a command is accepted")
        return
    expect(env, args, fail=flag, **{dest: words})
    # options of the programme as words of the command
    expect(env, outcome(argv + words + ["--json", "-x", "b", "--", ""]), fail=flag, **{dest: words + ["--json", "-x", "b", "--", ""]})


def run_order(env, o):
    env.reach("order")
    short, dest, _ = FLAGS[o]
    others = [x for x in list(FLAGS) + list(VALUES) + list(OPTIONAL) if
              (FLAGS.get(x) or VALUES.get(x) or OPTIONAL.get(x))[1] != dest]
    other = env.pick("other", tuple(others))
    if other in FLAGS:
        b = [other]
    else:
        info = VALUES.get(other) or OPTIONAL[other]
        good = info[2].words[0] if info[3] is None else {t_jobs: "1", t_ranges: "1-3", t_slice: "1:2"}.get(info[2], "a,b")
        b = [other, good]
    one = outcome([o] + b)
    env.check(one is not None, "a correct command line is refused")
    alike(env, one, outcome(b + [o]))
    # with positional arguments before and after
    alike(env, outcome(["x", "y", o] + b), outcome(["x", "y"] + b + [o]))
    alike(env, outcome(["x", "y", o] + b), outcome(b + [o, "x", "y"]) if o != other else None)


def run_unknown(env, kind, n):
    env.reach("unknown")
    if kind == "-":
        # only letters that are no option
        s = "-" + env.text("s", n, ["zZ-9=", "zH", "z1"][:n])
        if n > 1 and s[1] == "-":
            return
    elif kind == "--":
        s = "--" + env.text("s", n, ["azs", "il", "lx"][:n])
        for known in list(FLAGS) + list(VALUES) + list(OPTIONAL):
            if s == known:
                return
    else:
        s = "--" + env.text("s", 2, "az") + "=" + env.text("v", 1, "a=")
    where = env.pick("where", ("first", "last", "after a test"))
    argv = {"first": [s, "-H"], "last": ["-H", s], "after a test": ["a", s]}[where]
    env.check(outcome(argv) is None, "an unknown option is accepted")
    env.reach("refused")


def run_positional(env, n):
    env.reach("positional")
    words = [env.text(f"w{i}", 2, ["a(=", "-a"]) for i in range(n)]
    args = outcome(words + ["-H", "-S"])
    expect(env, args, tests=words, hide=True, sort=["file.path"])
    expect(env, outcome(["-H", "-S", "name"] + words), tests=words, hide=True, sort=["name"])
    expect(env, outcome(["-S", "-H"] + words + ["-x", "cmd"] + words), tests=words, hide=True, sort=["file.path"],
           exec=["cmd"] + words)


def run_intermixed(env):
    env.reach("intermixed")
    w = env.text("w", 1, "ab")
    mid = env.pick("mid", (["-H"], ["-Hv"], ["--json"], ["-l", "1:2"], ["--sort=a"], ["-j1"]))
    env.check(outcome([w] + mid + [env.text("u", 1, "ab")]) is None, "intermixed arguments are accepted")
    env.reach("refused")


def run_environment(env, n):
    """FF_OPTIONS is put before the command line."""
    env.reach("environment")
    world = World(D({"w": D({})}))
    text = env.text("v", n, "a \"'\\")
    world.environ["FF_OPTIONS"] = "-H --sep " + text
    # words as a shell makes them
    words, cur, quote, i, ok = [], None, "", 0, True
    while i < len(text):
        c = text[i]
        if quote == "'":
            if c == "'":
                quote = ""
            else:
                cur += c
        elif quote == '"':
            if c == '"':
                quote = ""
            elif c == "\\":
                i += 1
                if i == len(text):
                    ok = False
                elif text[i] == '"' or text[i] == "\\":
                    cur += text[i]
                else:
                    cur += "\\" + text[i]
            else:
                cur += c
        elif c == " ":
            if cur is not None:
                words.append(cur)
            cur = None
        elif c == "'" or c == '"':
            quote = c
            cur = cur or ""
        elif c == "\\":
            i += 1
            if i == len(text):
                ok = False
            else:
                cur = (cur or "") + text[i]
        else:
            cur = (cur or "") + c
        i += 1
    if quote:
        ok = False
    if cur is not None:
        words.append(cur)
    saved = sys.argv
    sys.argv = ["ff", "-R"]
    status = 0
    with active(world):
        try:
            args, error, warnings = parse_arguments()
        except SystemExit as exc:
            status = exc.code
        finally:
            sys.argv = saved
    if not ok:
        env.check(status == 2, "unbalanced quotes are not refused")
        env.check("usage:" in world.stderr.text(), "no usage message")
        env.reach("refused")
        return
    if not words:
        # --sep takes the -R
        env.check(status == 0, "refused")
        env.check(args.separator == "-R" and args.reverse is False, "FF_OPTIONS is not put before the command line")
        return
    env.check(status == 0, "FF_OPTIONS is refused")
    env.check(same(args.separator, words[0]), "wrong value from FF_OPTIONS")
    env.check(args.hide and args.reverse, "an option is lost")
    env.check(same(args.tests, words[1:]), "wrong arguments from FF_OPTIONS")


def run_programme(env, bad):
    env.reach("programme")
    world = ExecWorld(D({"w": D({"a": F(b"")})}))
    argv = {
        "value": lambda: env.pick("argv", (["-j", "x"], ["-jx"], ["-d", "a"], ["-d", ""], ["-l", "1"], ["--depth=1-2-3"], ["-j", "-1"])),
        "choice": lambda: [env.pick("argv", ("--case", "--halt", "--color")), env.text("v", 2, "on")],
        "unknown": lambda: ["-" + env.text("v", 1, "zyk")],
        "missing": lambda: [env.pick("argv", ("-D", "-e", "-o", "--sep", "-x", "-X", "-Hj"))],
        "environment": lambda: [],
        "noarg": lambda: ["--hide=" + env.text("v", 1, "1y")],
    }[bad]()
    if bad == "environment":
        world.environ["FF_OPTIONS"] = env.pick("env", ("-z", "'", "--case x", "-j"))
    if env.flag("first"):
        argv = ["type=f"] + argv if bad != "environment" else argv
    saved = sys.argv
    sys.argv = ["ff"] + argv
    status = 0
    with active(world):
        try:
            ff_main.Main().loop()
        except SystemExit as exc:
            status = exc.code or 0
        finally:
            sys.argv = saved
    env.check(status == 2, "a wrong command line is not refused with status 2")
    env.check(world.stdout.text() == "", "output although the command line is refused")
    env.check("usage:" in world.stderr.text(), "no usage message")
    env.observe(status)
