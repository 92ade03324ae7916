"""C14: the walk visits everything once; faults cost only what failed."""

import errno

from .common import *

from libff.find import Find

LABELS = ("excluded", "no match", "match", "stat fault", "scan fault", "broken off", "link fault", "shared",
          "chunks", "two starts")
BOUNDS = ("trees of up to 9 entries (4 shapes, files, directories, links and special files, names with any "
          "characters) in which every entry is freely excluded, matching or neither, and any one (thorough "
          "two) operations - examining an entry, reading a link, opening or continuing to read a directory "
          "- fail with any of five errors; directories with 9 to 14 and 98 to 201 entries, 9 to 12 "
          "and 98 to 201 subdirectories, for 1 and 3 processes, with idle processes at any two "
          "looks while slow plugins are in use")
ASSUME = ("symbolic links are not followed (-L can reach an entry along several paths)",
          "processes run one after another; their interleavings are C17's subject")
BUDGET = {"quick": 150, "thorough": 2400}

FAULTS = (errno.ENOENT, errno.EACCES, errno.EIO, errno.ENOTDIR, errno.ELOOP)

# name -> subtree, "f" file, "l" link, "x" dangling link, "p" fifo, "s" socket
SHAPES = (
    {"a": {"b": {"c": {"f": "f"}, "g": "f"}, "h": "f"}, "i": "f"},
    {"d": {}, "f": "f", "e": {"f": "f", "d": {}}},
    {"\udcff \n": {"-x": "f", " ": {}}, ".h": {"'": "f"}, "*": "f"},
    {"l": "l", "x": "x", "p": "p", "s": {"s": "s", "l": "l"}},
)


def cases(tier):
    deep = tier == "thorough"
    for i in range(len(SHAPES)):
        yield ("tests", i)
        for op in ("stat", "scandir", "iter", "readlink"):
            yield ("fault", i, op, None)
            if deep:
                for op2 in ("stat", "scandir", "iter", "readlink"):
                    yield ("fault", i, op, op2)
    for jobs in (1, 3):
        for n in (9, 10, 11, 12, 13, 14):
            yield ("slow", n, jobs)
        for n in (98, 99, 100, 101, 199, 200, 201):
            yield ("wide", n, jobs)
        for n in (9, 10, 11, 12, 98, 99, 100, 101, 199, 201):
            yield ("dirs", n, jobs)
    yield ("starts",)


def build(shape, path, nodes, make):
    out = {}
    for name, sub in shape.items():
        p = path + "/" + name if path else name
        kw = make(p)
        if isinstance(sub, dict):
            nodes[p] = None
            out[name] = nodes[p] = D(build(sub, p, nodes, make), **kw)
        elif sub == "l":
            out[name] = nodes[p] = L("/w", **kw)
        elif sub == "x":
            out[name] = nodes[p] = L("nowhere", **kw)
        else:
            out[name] = nodes[p] = W.Node(sub, **kw)
    return out


def paths(shape, path=""):
    for name, sub in shape.items():
        p = path + "/" + name if path else name
        yield p
        if isinstance(sub, dict):
            yield from paths(sub, p)


def search(env, tree, want, scans, jobs=1, query=("links=1",), world=World, **kw):
    """Run the search; every path of want with a true condition must be found, nothing else."""
    with active(world(D({"w": tree}))) as w:
        found = [r["path"] for r in Find(list(query), exclude=["uid=1"], output=["path"], jobs=jobs, cache=None, **kw)]
    env.observe(sorted(found))
    for p, cond in want.items():
        env.check((found.count(p) == 1) == cond if p in found else no(cond),
                  "an entry is missing, or is a result that should not be")
    env.check(len(set(found)) == len(found), "an entry is a result twice")
    env.check(all(p in want for p in found), "an entry outside of the tree is a result")
    if scans is not None:
        did = sorted(p if p == "." else p[2:] if p.startswith("./") else p for op, p in w.events if op == "scandir")
        env.check(did == sorted(scans), "the wrong directories are searched")


def run(env, case):
    if case[0] == "tests":
        run_fault(env, case[1], None, None, True)
    elif case[0] == "fault":
        run_fault(env, case[1], case[2], case[3], False)
    elif case[0] == "slow":
        run_slow(env, case[1], case[2])
    elif case[0] == "wide":
        run_wide(env, case[1], case[2], False)
    elif case[0] == "dirs":
        run_wide(env, case[1], case[2], True)
    else:
        run_starts(env)


def run_fault(env, i, op, op2, free):
    shape = SHAPES[i]
    every = list(paths(shape))
    excl = {p: env.bool(f"excluded{k}") if free or k in (0, len(every) - 1) else False
            for k, p in enumerate(every)}
    match = {p: env.bool(f"match{k}") if free or k in (1, len(every) - 2) else True
             for k, p in enumerate(every)}
    nodes = {}
    top = build(shape, "", nodes, lambda p: {"uid": excl[p] * 1, "nlink": match[p] * 1})
    tree = D(top)
    nodes["."] = tree
    bad = {}            # (operation, path) -> position
    for j, o in enumerate((op, op2)):
        if o is None:
            continue
        kinds = {"stat": "dflxps", "scandir": "d", "iter": "d", "readlink": "l"}[o]
        cand = [p for p, n in nodes.items() if n.kind in kinds and (o in ("scandir", "iter") or p != ".")]
        if not cand:
            return
        p = env.pick(f"where{j}", cand)
        e = env.pick(f"errno{j}", FAULTS)
        if o == "iter":
            if (o, p) in bad:
                return
            n = len(nodes[p].children)
            at = env.pick(f"at{j}", range(n + 1))
            nodes[p].errors["iter_at"] = at
            nodes[p].errors["iter_errno"] = e
            env.reach("broken off")
            bad[o, p] = at
        else:
            nodes[p].errors[o] = e
            env.reach({"stat": "stat fault", "scandir": "scan fault", "readlink": "link fault"}[o])
            bad[o, p] = 0
    want = {}
    scans = []

    def visit(path, node, alive):
        scans.append((path, alive))
        if ("scandir", path) in bad:
            return
        kids = node.children
        if ("iter", path) in bad:
            kids = kids[:bad["iter", path]]
        for name, sub in kids:
            p = name if path == "." else path + "/" + name
            if ("stat", p) in bad or ("readlink", p) in bad:
                continue
            want[p] = alive & no(excl[p]) & match[p]
            if sub.kind == "d":
                visit(p, sub, alive & no(excl[p]))

    visit(".", tree, True)
    if not free and any(("stat", p) in bad for p in want):
        pass
    for p in every:
        want.setdefault(p, False)
    if free:
        for p, c in want.items():
            env.reach("match" if c else "excluded" if excl[p] else "no match")
    search(env, tree, want, [p for p, c in scans if c])


class Idle(World):
    """Any number of processes may be idle at any moment."""

    at = jobs = None

    def Barrier(self, parties, action=None, timeout=None):
        class Barrier(W.SeqBarrier):
            looks = 0
            n_waiting = property(lambda b: b.look(), lambda b, v: None)

            def look(b):
                b.looks += 1
                return Idle.jobs if (b.looks == Idle.at[0]) | (b.looks == Idle.at[1]) else 0
        return Barrier(self, parties)


def run_slow(env, n, jobs):
    Idle.at, Idle.jobs = (env.int("idle0", 0, n), env.int("idle1", 0, n)), jobs
    env.assume(Idle.at[0] <= Idle.at[1])
    some = (n - 1,)
    match = [env.bool(f"match{i}") if i in some else True for i in range(n)]
    excl = [env.bool(f"excluded{i}") if i == n // 2 + 1 else False for i in range(n)]
    tree = D({f"e{i}": (D({"in": F(b"")}, nlink=match[i] * 1, uid=excl[i] * 1) if i % 4 == 0 else
                        F(b"", nlink=match[i] * 1, uid=excl[i] * 1)) for i in range(n)})
    want = {f"e{i}": match[i] & no(excl[i]) for i in range(n)}
    scans = ["."]
    for i in range(0, n, 4):
        want[f"e{i}/in"] = no(excl[i])
        if no(excl[i]):
            scans.append(f"e{i}")
    env.reach("shared")
    search(env, tree, want, scans, jobs=jobs, query=("ignored=no", "links=1"), world=Idle)


def run_wide(env, n, jobs, dirs):
    some = [i for i in (0, 9, 99, 100, n - 1) if i < n]
    match = {i: env.bool(f"match{i}") if i in some else True for i in range(n)}
    excl = {i: env.bool(f"excluded{i}") if i in (1, n // 2) else False for i in range(n)}
    want = {}
    kids = {}
    scans = ["."]
    for i in range(n):
        kw = dict(nlink=match[i] * 1, uid=excl[i] * 1)
        want[f"e{i}"] = match[i] & no(excl[i])
        if dirs:
            kids[f"e{i}"] = D({"f": F(b"")}, **kw)
            want[f"e{i}/f"] = no(excl[i])
            if no(excl[i]):
                scans.append(f"e{i}")
        else:
            kids[f"e{i}"] = F(b"", **kw)
    env.reach("chunks")
    search(env, D(kids), want, scans, jobs=jobs)


def run_starts(env):
    """Several start directories, one of which may fail to be read."""
    excl = [env.bool(f"excluded{i}") for i in range(3)]
    kids = {}
    want = {}
    for i, d in enumerate(("a", "ab", "c")):
        kids[d] = D({"x": D({"y": F(b"")}, uid=excl[i] * 1)})
        want[d + "/x"] = want[d + "/x/y"] = no(excl[i])
    bad = env.pick("bad", (None, 0, 1, 2))
    if bad is not None:
        d = ("a", "ab", "c")[bad]
        kids[d].errors["scandir"] = env.pick("errno", FAULTS)
        want[d + "/x"] = want[d + "/x/y"] = False
    env.reach("two starts")
    search(env, D(kids), want, None, directories=["a", "ab", "c"], jobs=env.pick("jobs", (1, 3)))
