"""C16: which arguments are start directories, and overlapping start directories."""

from .common import *

from libff.arguments import parse_arguments

LABELS = ("leading", "trailing", "between", "default", "given", "inside", "apart", "same", "special", "root")
BOUNDS = ("up to 5 (thorough 6) arguments, each independently a word without a slash that does or does "
          "not name a directory, a test with a slash, or a path with a slash (of four spellings) that is a "
          "directory, a link to one, a file, a dangling link or nothing; two start directories with names "
          "of up to 4 (thorough 5) characters, the two together up to 7 (9), from 'a', '.', '/' (and 'b' if short) below a working directory of depth "
          "0 to 2, all components being arbitrary; three directories of up to 2 characters; the root "
          "directory and other special directories in every spelling of up to 2 characters")
ASSUME = ("'inside' is decided on the written paths (symbolic links are not resolved), as documented; "
          "naming the same directory twice is left open",)
BUDGET = {"quick": 150, "thorough": 2400}


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 7 if deep else 6):
        for style in range(4):
            yield ("ends", n, style)
    for n in (1, 2, 3):
        yield ("special", n)
    yield ("given",)
    top = 5 if deep else 4
    for cwd in ("/", "/a", "/a/b"):
        for n in range(1, top + 1):
            for m in range(1, min(n, 2 * top - 1 - n) + 1):
                yield ("overlap", cwd, (n, m))
                if n != m:
                    yield ("overlap", cwd, (m, n))
        for ns in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2)):
            yield ("overlap", cwd, ns)


SPELL = (lambda i: f"d{i}/", lambda i: f"./d{i}", lambda i: f"/w/x/../d{i}//", lambda i: f"x/.././d{i}/.")
KINDS = ("d", "f", "-", "l", "x", "test", "word", "dirword")


def parse(argv):
    saved = sys.argv
    sys.argv = ["ff"] + list(argv)
    try:
        return parse_arguments()
    finally:
        sys.argv = saved


def run(env, case):
    if case[0] == "ends":
        run_ends(env, case[1], case[2])
    elif case[0] == "special":
        run_special(env, case[1])
    elif case[0] == "given":
        run_given(env)
    else:
        run_overlap(env, case[1], case[2])


def run_ends(env, n, style):
    kinds = [env.pick(f"kind{i}", KINDS[:4] if n > 4 else KINDS) for i in range(n)]
    words = []
    tree = {"x": D({}), "real": D({})}
    for i, k in enumerate(kinds):
        path = SPELL[(style + i) % 4](i)
        if k == "d":
            tree[f"d{i}"] = D({})
        elif k == "l":
            tree[f"d{i}"] = L("/w/real")
        elif k == "f":
            tree[f"d{i}"] = F(b"")
            path = f"./d{i}"
        elif k == "x":
            tree[f"d{i}"] = L("gone")
        elif k == "test":
            path = f"path={i}/a"
        elif k == "word":
            path = f"d{i}=x"
        elif k == "dirword":
            tree[f"d{i}"] = D({})
            path = f"d{i}"
        words.append(path)
    isdir = [k in ("d", "l") for k in kinds]
    lead = 0
    while lead < n and isdir[lead]:
        lead += 1
    trail = n
    while trail > lead and isdir[trail - 1]:
        trail -= 1
    dirs = [i for i in range(n) if i < lead or i >= trail]
    if lead:
        env.reach("leading")
    if trail < n:
        env.reach("trailing")
    if any(isdir[lead:trail]):
        env.reach("between")
    with active(World(D({"w": D(tree)}))):
        args, error, _ = parse(words)
    env.check(error is None, "a valid command line is refused")
    env.check(list(args.tests) == words[lead:trail], "the remaining arguments are not the tests in order")
    if not dirs:
        env.reach("default")
        env.check(list(args.directories) == ["."], "the default directory is not used")
    else:
        got = sorted(norm("/w", d) for d in args.directories)
        env.check(got == sorted(("w", f"d{i}") for i in dirs), "wrong start directories")
    env.observe(list(args.tests))


def run_special(env, n):
    """A start directory of any spelling, the root directory for instance."""
    env.reach("special")
    path = env.text("path", n, "/" if n == 1 else "./") if n < 3 else env.pick("path", ("/w/", "x/.", "../", "../w", "x/..", "//w"))
    slash = False
    for c in path:
        slash = slash | (c == "/")
    if not slash:
        return
    # two leading slashes may mean something else than one
    words = env.pick("order", (("size=1", path), (path, "size=1"), (path,)))
    with active(World(D({"w": D({"x": D({})})}), cwd="/w")):
        args, error, _ = parse(words)
    env.check(error is None, "a valid command line is refused")
    env.check(list(args.tests) == [w for w in words if w == "size=1"], "the remaining arguments are not the tests in order")
    env.check([norm("/w", d) for d in args.directories] == [norm("/w", path)], "wrong start directories")
    if not norm("/w", path):
        env.reach("root")


def run_given(env):
    """With -D no argument is a directory."""
    k = env.pick("n", (1, 2))
    tree = {"a": D({}), "b": D({}), "c": D({})}
    words = [env.pick(f"w{i}", ("a/", "./b", "name=x", "/w/c")) for i in range(3)]
    argv = []
    for i in range(k):
        argv += ["-D", ("a", "b")[i]]
    where = env.pick("where", ("first", "last"))
    with active(World(D({"w": D(tree)}))):
        args, error, _ = parse(argv + words if where == "first" else words + argv)
    env.reach("given")
    env.check(error is None, "a valid command line is refused")
    env.check(list(args.tests) == words, "an argument is taken as directory although -D is given")
    env.check(list(args.directories) == ["a", "b"][:k], "wrong start directories")


def norm(cwd, path):
    """Components of the absolute path."""
    path = path if path[0] == "/" else cwd + "/" + path
    out = []
    for part in path.split("/"):
        if part == ".." and len(part):
            if out:
                out.pop()
        elif len(part) and part != ".":
            out.append(part)
    return tuple(out)


def run_overlap(env, cwd, lens):
    dirs = [env.text(f"dir{i}", n, "ab./" if sum(lens) < 6 else "a./") for i, n in enumerate(lens)]
    argv = []
    for d in dirs:
        argv += ["-D", d]
    parts = [norm(cwd, d) for d in dirs]
    inside = False
    for i, a in enumerate(parts):
        for j, b in enumerate(parts):
            if i == j:
                continue
            if len(a) == len(b) and all(x == y for x, y in zip(a, b)):
                env.reach("same")
                return
            if len(a) < len(b) and all(x == y for x, y in zip(a, b)):
                inside = True
    with active(World(D({}), cwd=cwd)):
        args, error, _ = parse(argv)
    env.observe(error is None)
    if inside:
        env.reach("inside")
        env.check(error is not None, "overlapping start directories are accepted")
    else:
        env.reach("apart")
        env.check(error is None, "distinct start directories are refused")
        env.check(list(args.directories) == dirs, "the start directories are changed")
