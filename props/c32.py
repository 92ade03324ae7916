"""C32: git attributes."""

from .common import *

LABELS = ("tracked", "untracked", "dirty", "clean", "renamed", "deleted", "no repository", "nested", "sibling", "quoted",
          ".git file", "directory", "unreadable", "spelled", "order")
BOUNDS = ("all subsets of four directories (two siblings, one of them with a directory in it, below a common one) holding a "
          ".git directory, four files, two of them in any state git reports, symbolic names of up to 2 (thorough 3) "
          "characters, among them quotes, blanks, line ends, arrows and undecodable bytes; ten spellings of the start directory")
ASSUME = ("git behaves as the stand-in below: ls-files and status --porcelain as documented, with and without -z",)
BUDGET = {"quick": 250, "thorough": 3000}

# index state, state in the working tree: as in the output of git status
STATES = {"untracked": None, "clean": "  ", "modified": " M", "staged": "M ", "both": "MM", "added": "A ", "renamed": "R ",
          "intent": " A", "type": " T", "unmerged": "UU", "rm": "D "}
NAMES = {"plain": "f", "odd": None, "arrow": "o -> n", "lead": " f", "copy": "R  f"}


def cases(tier):
    deep = tier == "thorough"
    for repos in range(16):
        for i in range(4):
            for j in range(i, 4):
                if not deep and (i + j + repos) % 3 and j != i:
                    continue
                yield ("layout", repos, i, j)
    for n in (1, 2) + ((3,) if deep else ()):
        for state in ("clean", "modified", "untracked", "renamed", "added"):
            yield ("names", n, state)
    for name in ("o -> n", " f", "f ", "R  f", "?? f", "\tf", "f\r", "f\r\n", "f\n", "\x85", "\u2028x", "-z"):
        for state in ("clean", "modified", "untracked", "renamed", "added"):
            yield ("name", name, state)
    for where in (0, 1, 2, 3):
        yield ("git file", where)
        yield ("deleted", where)
    for repos in range(16):
        yield ("order", repos)
    yield ("none",)
    yield ("spelled",)
    yield ("broken",)


def run(env, case):
    globals()["run_" + case[0].replace(" ", "_")](env, *case[1:])


def quote(name, blanks):
    """How git writes a file name without -z."""
    data = name.encode("utf-8", "surrogateescape")
    out, special = [], False
    for b in data:
        if b == 34 or b == 92:
            out += [92, b]
            special = True
        elif b < 32 or b == 127 or b >= 128:
            special = True
            esc = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r"}
            for k, v in esc.items():
                if b == k:
                    out += [92, ord(v)]
                    break
            else:
                if type(b) is not int:
                    b = b + 0
                out += [92, 48 + b // 64, 48 + b // 8 % 8, 48 + b % 8]
        else:
            if b == 32 and blanks:
                special = True
            out.append(b)
    r = "".join([chr(x) for x in out])
    return '"' + r + '"' if special else r


class GitWorld(World):
    """repos: {directory: {path relative to it: (state, old path)}}"""

    def __init__(self, root, repos):
        super().__init__(root)
        self.repos = repos

    def popen(self, args, **kw):
        args = list(args)
        if args[0] != "git" or kw.get("shell"):
            raise W.core.Unsupported("a command other than git")
        cwd = kw.get("cwd") or self.cwd
        i = 1
        while i < len(args) and args[i].startswith("-"):
            if args[i] == "-C":
                cwd = args[i + 1]
                i += 2
            elif args[i] in ("--no-optional-locks", "--no-pager"):
                i += 1
            elif args[i] == "-c":
                if args[i + 1] not in ("core.quotePath=true", "core.quotepath=true"):
                    raise W.core.Unsupported("git -c")
                i += 2
            else:
                raise W.core.Unsupported("git " + args[i])
        command, rest = args[i], args[i + 1:]
        repo, sub = cwd, ""
        while repo not in self.repos:
            if repo == "/":
                return self.answer("", 128, kw)
            sub = repo[repo.rindex("/") + 1:] + "/" + sub
            repo = repo[:repo.rindex("/")] or "/"
        files = self.repos[repo]
        if files is None:
            return self.answer("", 128, kw)
        z = "-z" in rest
        out = ""
        known = {"ls-files": ("-z", "--cached", "-c", "--full-name"),
                 "status": ("-z", "--porcelain", "--porcelain=v1", "--no-renames", "--untracked-files=no", "-uno", "--short",
                            "-s", "--untracked-files", "--ignore-submodules")}.get(command)
        if known is None or any(r not in known for r in rest):
            raise W.core.Unsupported("git " + " ".join(args[i:]))
        if command == "ls-files":
            for path, (state, old) in files.items():
                if state is None or state == "D ":
                    continue
                if sub:
                    if not path.startswith(sub):
                        continue
                    if "--full-name" not in rest:
                        path = path[len(sub):]
                out += path + "\0" if z else quote(path, False) + "\n"
            return self.answer(out, 0, kw)
        if not ("--porcelain" in rest or "--porcelain=v1" in rest or z):
            raise W.core.Unsupported("git status for humans")
        entries = []
        for path, (state, old) in files.items():
            if state is None:
                if not ("-uno" in rest or "--untracked-files=no" in rest):
                    entries.append(("??", path, None))
            elif state == "R " and "--no-renames" in rest:
                entries.append(("A ", path, None))
                entries.append(("D ", old, None))
            elif state != "  ":
                entries.append((state, path, old))
        for state, path, old in entries:
            if z:
                out += state + " " + path + "\0"
                if old is not None:
                    out += old + "\0"
            elif old is not None:
                out += state + " " + quote(old, True) + " -> " + quote(path, True) + "\n"
            else:
                out += state + " " + quote(path, True) + "\n"
        return self.answer(out, 0, kw)

    def answer(self, out, status, kw):
        data = out.encode("utf-8", "surrogateescape")
        if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors"):
            data = data.decode(kw.get("encoding") or "utf-8", kw.get("errors") or "strict")
            data = data.replace("\r\n", "\n").replace("\r", "\n")
        return W.FakePopen([], status, data, data[:0])


def evaluate(env, names, repos, states, gitfile=None, gone=None, broken=False, turned=0):
    """Build the tree, read all attributes and compare them with what they should be."""
    d1, d2, s, f0, f1, f2, f3 = names
    dirs = {"w": "/w", "d1": "/w/" + d1, "d2": "/w/" + d2, "s": "/w/" + d1 + "/" + s}
    order = ("w", "d1", "d2", "s")
    files = [("w", f0), ("d1", f1), ("d2", f2), ("s", f3)]
    parents = {"w": [], "d1": ["w"], "d2": ["w"], "s": ["d1", "w"]}
    content = {"w": {f0: F(b"")}, "d1": {f1: F(b"")}, "d2": {f2: F(b"")}, "s": {f3: F(b"")}}
    if gone is not None:
        where, name = files[gone]
        del content[where][name]
    for k in order:
        if repos[k]:
            content[k][".git"] = D({})
    if gitfile is not None:
        content[gitfile][".git"] = F(b"gitdir: elsewhere\n")
    content["d1"][s] = D(content["s"])
    content["w"][d1] = D(content["d1"])
    content["w"][d2] = D(content["d2"])

    def nearest(k):
        for x in [k] + parents[k]:
            if repos[x]:
                return x
        return None

    def relative(repo, where, name):
        path = dirs[where] + "/" + name
        return path[len(dirs[repo]) + 1:]

    index = {dirs[k]: {} for k in order if repos[k]}
    for i, (where, name) in enumerate(files):
        r = nearest(where)
        if r is None:
            continue
        state = STATES[states[i]]
        old = None
        if state == "R ":
            # the old name looks like that of another file after three characters
            others = [relative(r, w2, n2) for k, (w2, n2) in enumerate(files) if k != i and nearest(w2) == r]
            old = "123" + others[0] if others else relative(r, where, "old")
        index[dirs[r]][relative(r, where, name)] = (state, old)
    if broken:
        index = {k: None for k in index}
    root = D(content["w"])
    world = GitWorld(D({"w": root}), index)
    world.cwd = "/w"
    with active(world):
        ctx = context()
        todo = [(k, None) for k in order[1:]]
        todo += [(where, i) for i, (where, name) in enumerate(files) if i != gone]
        if turned:
            todo = todo[turned:] + todo[:turned]
            todo.reverse()
        for where, i in todo:
            path = dirs[where] if i is None else dirs[where] + "/" + files[i][1]
            e = entry(path[3:], world.stat(path, False))
            got = {a: attr(ctx, e, "git." + a) for a in ("tracked", "dirty", "repo_dir", "repo")}
            r = nearest(where)
            if r is None:
                env.reach("no repository")
                for v in got.values():
                    env.check(v is MISSING, "git attributes outside of any repository")
                continue
            if where != r and r != "w":
                env.reach("nested")
            env.check(all(v is not MISSING for v in got.values()), "no git attributes inside a repository")
            env.check(got["repo_dir"] == dirs[r], "wrong repository")
            env.check(bool(got["repo"]) == (i is None and r == where), "wrong answer whether this is a repository")
            if broken:
                env.check(not got["tracked"] and not got["dirty"], "attributes of a broken repository")
                continue
            if i is None:
                env.reach("directory")
                tracked = dirty = False
                for k, (w2, n2) in enumerate(files):
                    if nearest(w2) == r and (w2 == where or where in parents[w2]):
                        st = STATES[states[k]]
                        tracked = tracked or st not in (None, "D ")
                        dirty = dirty or st not in (None, "  ")
            else:
                st = STATES[states[i]]
                tracked, dirty = st not in (None, "D "), st not in (None, "  ")
            if i is not None and st == "D ":
                # removed from the index, but there: git reports it as changed and as untracked
                env.check(not got["tracked"], "wrong answer whether the entry is tracked")
                continue
            env.reach("tracked" if tracked else "untracked")
            env.reach("dirty" if dirty else "clean")
            env.check(bool(got["tracked"]) == tracked, "wrong answer whether the entry is tracked")
            env.check(bool(got["dirty"]) == dirty, "wrong answer whether the entry is dirty")


PLAIN = ("d", "dd", "s", "f", "f", "f", "f")


def run_layout(env, bits, i, j):
    repos = {k: bool(bits >> n & 1) for n, k in enumerate(("w", "d1", "d2", "s"))}
    states = ["clean", "untracked", "modified", "clean"]
    states[i] = env.pick("state", tuple(STATES))
    if j != i:
        states[j] = env.pick("state2", ("untracked", "modified", "renamed") + ("clean",) * (env.thorough))
    if "renamed" in states:
        env.reach("renamed")
    d = env.text("d", 1, "d.") + "x"
    # a sibling whose name begins with, or is the beginning of, the other one's
    sib = env.pick("sibling", ("longer", "shorter", "other", "like the top"))
    env.reach("sibling")
    d2 = d + env.text("more", 1, "x-.") if sib == "longer" else {"other": d[:1] + "y", "shorter": "d", "like the top": "w"}[sib]
    evaluate(env, (d, d2, "s", "f", "f", "f", "f"), repos, states)


def run_order(env, bits):
    """Whatever is examined first."""
    env.reach("order")
    repos = {k: bool(bits >> n & 1) for n, k in enumerate(("w", "d1", "d2", "s"))}
    states = [env.pick("state", ("clean", "modified")), "untracked", env.pick("state2", ("modified", "clean")), "clean"]
    names = env.pick("names", (PLAIN, ("d", "s", "s", "f", "f", "f", "f"), ("d", "w", "d", "f", "f", "f", "f")))
    evaluate(env, names, repos, states, turned=env.pick("turned", (0, 1, 2, 3, 4, 5, 6)))


def run_names(env, n, state):
    env.reach("quoted")
    name = env.text("name", n, "a \"\\\xe9\udc80\n>-"[:9 if n < 2 else 7])
    deep = env.flag("in a directory")
    states = ["clean", "clean", "clean", "untracked"]
    names = list(PLAIN)
    if deep:
        names[0], names[1] = name, name + "x"
        states[1] = state
    else:
        names[3] = name
        states[0] = state
        env.assume((name != "d") & (name != "dd"))
    evaluate(env, names, {"w": True, "d1": False, "d2": False, "s": False}, states)


def run_name(env, name, state):
    env.reach("quoted")
    states = ["clean", "clean", "clean", "untracked"]
    names = list(PLAIN)
    where = env.pick("where", ("file", "inner", "directory"))
    if where == "file":
        names[3] = name
        states[0] = state
    elif where == "inner":
        names[4] = name
        states[1] = state
    else:
        names[0] = name
        states[1] = state
    evaluate(env, names, {"w": True, "d1": False, "d2": env.flag("other"), "s": False}, states)


def run_git_file(env, where):
    """A .git that is no directory."""
    env.reach(".git file")
    k = ("w", "d1", "d2", "s")[where]
    repos = {x: env.flag("repo " + x) for x in ("w", "d1", "d2", "s")}
    repos[k] = False
    evaluate(env, PLAIN, repos, ["clean", "modified", "untracked", "modified"], gitfile=k)


def run_deleted(env, where):
    """A file that git knows is gone."""
    env.reach("deleted")
    repos = {x: env.flag("repo " + x) for x in ("w", "d1", "d2", "s")}
    states = ["clean"] * 4
    states[where] = "modified"
    evaluate(env, PLAIN, repos, states, gone=where)


def run_spelled(env):
    """However the start directory is written, it is the repository around the absolute path that counts."""
    env.reach("spelled")
    below = env.flag("repository below")
    state, other = env.pick("state", ("clean", "modified", "untracked")), env.pick("other", ("clean", "modified", "untracked"))

    def right():
        k = {"f": F(b""), "g": F(b"")}
        return {"k": D({**k, ".git": D({})})} if below else {"k": D(k), ".git": D({})}

    def wrong():
        return {"k": D({"f": F(b""), "g": F(b""), ".git": D({})}), ".git": D({})}
    world, root, top, make = spelled(env, right, wrong, lambda tree: GitWorld(tree, {}))
    for d in ("/", "/w", "/s", "/w/t", "/w/s", "/w/s/x", "/l"):
        for k in ("", "k"):
            here = d == top or {d, top} == {"/l", "/w/s"}
            p = "" if k else "k/"
            states = (state, other) if here else ("modified" if state == "clean" else "clean", other)
            if not here or bool(k) == below:
                world.repos[(d.rstrip("/") + "/" + k).rstrip("/") or "/"] = {p + "f": (STATES[states[0]], None),
                                                                             p + "g": (STATES[states[1]], None)}
    real = top.rstrip("/") + "/k" if below else top
    with active(world):
        ctx = context()
        for name, sts in (("k/f", (state,)), ("k/g", (other,)), ("k", (state, other))):
            e = make(name)
            got = {a: attr(ctx, e, "git." + a) for a in ("tracked", "dirty", "repo_dir", "repo")}
            env.check(all(v is not MISSING for v in got.values()), "no git attributes inside a repository")
            env.check(got["repo_dir"] == real, "wrong repository")
            env.check(bool(got["repo"]) == (name == "k" and below), "wrong answer whether this is a repository")
            env.check(bool(got["tracked"]) == any(s != "untracked" for s in sts), "wrong answer whether the entry is tracked")
            env.check(bool(got["dirty"]) == any(s == "modified" for s in sts), "wrong answer whether the entry is dirty")


def run_none(env):
    evaluate(env, PLAIN, dict.fromkeys(("w", "d1", "d2", "s"), False), ["untracked"] * 4)


def run_broken(env):
    env.reach("unreadable")
    evaluate(env, PLAIN, dict.fromkeys(("w", "d1", "d2", "s"), True), ["clean"] * 4, broken=True)
