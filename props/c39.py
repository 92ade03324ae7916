"""C39: no connection to the cache database is shared by processes or left behind by a search."""

import weakref

from symx import sql
from symx.sched import SchedWorld
from libff.find import Find

from . import c27
from .common import *

LABELS = ("complete", "abandoned", "never begun", "failed", "refused", "nested", "workers read", "the caller reads", "again",
          "sorted", "known")
BOUNDS = ("searches through the Python interface with one or two workers over two files, of which each matches or not, with "
          "attributes of a caching plugin in the query, the output, the sort fields or nowhere; used up, abandoned after "
          "any result, never begun, failing because a worker is killed, or refused; two searches one after the other or "
          "nested into one another; up to 1 (thorough 2) deviations from the default schedule")
ASSUME = ("sqlite3 behaves as its model symx/sql.py on the statements used (real sqlite3 in the native replay)",)
BUDGET = {"quick": 150, "thorough": 2400}
warm = c27.warm


class ConnWorld(SchedWorld):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.opened = []
        self.crossed = 0
        self.nested = False

    def connect(self, path, *a, **kw):
        conn = super().connect(path, *a, **kw)
        self.opened.append((weakref.ref(conn), self.sched.cur.proc))
        return conn

    def own(self, proc):
        """The open connections of a process."""
        conns = [ref() for ref, p in self.opened if p is proc]
        return [c for c in conns if c is not None and not c.closed]

    def forking(self):
        if not self.nested and self.own(self.sched.cur.proc):
            self.crossed += 1


def cases(tier):
    deep = tier == "thorough"
    for where in ("query", "output", "sort", "both", "none"):
        for jobs in (1, 2):
            for switches in range((3 if deep else 2) if jobs == 2 and where in ("query", "output") else 1):
                yield ("search", where, jobs, switches)
    for where in ("query", "output", "sort"):
        yield ("unused", where)
        yield ("two", where, False)
        yield ("two", where, True)
    yield ("killed",)
    yield ("refused",)


def options(where):
    return {"query": dict(query=["foo.tag+=1"], output=["path"]),
            "output": dict(query=["size+=1"], output=["path", "foo.tag"]),
            "sort": dict(query=["size+=1"], output=["path"], sort=["foo.tag", "path"]),
            "both": dict(query=["foo.tag+=1"], output=["path", "foo.where"], sort=["foo.tag", "path"]),
            "none": dict(query=["size+=1"], output=["path"])}[where]


def tree(env, n=2):
    names = "fgh"[:n]
    tags = [env.int(f"tag{i}", 0, 1) for i in range(n)]
    want = [name for name, t in zip(names, tags) if t >= 1]
    # whether a file matches is the same thing in all queries
    return D({"w": D({name: F(b"", mtime=t, size=t) for name, t in zip(names, tags)})}), want


def verify(env, world):
    env.check(not sql.INHERITED, "a connection is used by a process that did not open it")
    env.check(not world.crossed, "a process is forked while a connection is open")
    env.check(not world.own(world.sched.cur.proc), "a connection is left open")


def run(env, case):
    del sql.INHERITED[:]
    del c27.CALLS[:]
    globals()["run_" + case[0]](env, *case[1:])


def run_search(env, where, jobs, switches):
    root, want = tree(env)
    stop = env.pick("stop", (None, 0, 1, 2))
    with ConnWorld(root, env, switches) as world:
        find = Find(jobs=jobs, cache="/w/cache.db", **options(where))
        env.check(not world.own(world.sched.cur.proc), "a connection is left open by a search that has not begun")
        got = []
        results = iter(find)
        if stop is None:
            for r in results:
                got.append(r["path"])
            env.reach("complete")
            env.check(sorted(got) == want, "wrong results")
        else:
            for r in results:
                got.append(r["path"])
                if len(got) >= stop:
                    break
            env.reach("abandoned")
            results.close()
        if want:
            env.reach({"query": "workers read", "output": "the caller reads", "sort": "sorted"}.get(where, "complete"))
        verify(env, world)


def run_unused(env, where):
    root, want = tree(env)
    env.reach("never begun")
    with ConnWorld(root, env) as world:
        find = Find(jobs=1, cache="/w/cache.db", **options(where))
        verify(env, world)
        results = iter(find)
        verify(env, world)
        results.close()
        verify(env, world)


def run_two(env, where, nested):
    root, want = tree(env)
    with ConnWorld(root, env) as world:
        one = Find(jobs=1, cache="/w/cache.db", **options(where))
        two = Find(jobs=1, cache=env.pick("second", ("/w/cache.db", "/w/other.db", None)), **options("output"))
        if nested:
            env.reach("nested")
            world.nested = True
            got = []
            for a in one:
                got.append((a["path"], [b["path"] for b in two] if not got else None))
            env.check(sorted([g[0] for g in got]) == want, "wrong results")
            env.check(not got or sorted(got[0][1]) == want, "wrong results of the inner search")
        else:
            env.reach("again")
            for find in (one, two):
                env.check(sorted([r["path"] for r in find]) == want, "wrong results")
            env.reach("known")
        verify(env, world)


def run_killed(env):
    """A worker dies."""
    from symx.sched import Vanish
    root, want = tree(env)
    where = env.pick("where", ("query", "sort"))
    env.assume(len(want) > 0)
    env.reach("failed")

    class Dying(ConnWorld):
        def scandir(self, path="."):
            raise Vanish()

    with Dying(root, env) as world:
        find = Find(jobs=1, cache="/w/cache.db", **options(where))
        try:
            list(find)
        except X.ProcessError:
            pass
        verify(env, world)


def run_refused(env):
    root, want = tree(env)
    env.reach("refused")
    kind = env.pick("kind", (dict(query=["foo.tag+=1", "nothing=1"]), dict(query=["foo.tag=x"]), dict(sort=["foo.tag", "nothing"]),
                             dict(output=["foo.tag:h"]), dict(query=["foo.tag=1", "("])))
    with ConnWorld(root, env) as world:
        try:
            Find(jobs=1, cache="/w/cache.db", **kind)
        except (X.BaseError, ValueError):
            pass
        else:
            env.fail("a wrong search is accepted")
        verify(env, world)
