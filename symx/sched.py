"""A World with several processes and threads under the control of a scheduler.

Every simulated process or thread is a thread of this interpreter, but only the one that holds the
baton runs.  At each operation on something shared (queue, lock, barrier, shared value, output
stream, process, time) the running one yields and the scheduler decides who goes on.

The decisions are symbolic: a default schedule (go on with whoever runs as long as possible, let
waits time out only when nobody can run) and up to `switches` deviations from it, whose positions
and kinds are solver variables.  A deviation runs another process that is ready, or lets a wait time
out before its condition holds.

A new process works on a copy of its parent's objects; what is sent through a queue is pickled.
Locks, queues, barriers and shared values are the only things processes share."""

import _thread
import collections
import copy
import ctypes
import io
import os
import pickle
import queue
import threading
import traceback
import types

from . import core, sql, values, world
from .world import FakePopen, Out, World

_new_lock = _thread.allocate_lock
MAXSTEPS = 20000
NEVER = 1 << 20


class Kill(BaseException):
    """Ends a simulated process at once."""


class Vanish(BaseException):
    """To be raised by a harness inside a worker: the process is gone (SIGKILL, crash, os._exit(status))."""

    def __init__(self, status=-9):
        super().__init__(status)
        self.status = status


class Stuck(Exception):
    pass


# --------------------------------------------------------------- scheduling --
class Task:
    def __init__(self, sched, name, proc):
        self.sched = sched
        self.name = name
        self.proc = proc            # the Proc it belongs to
        self.baton = _new_lock()
        self.baton.acquire()
        self.ended = _new_lock()
        self.ended.acquire()
        self.done = False
        self.killed = False
        self.pred = None
        self.timer = None
        self.early = False
        self.since = 0
        self.timed_out = False
        self.ident = None
        self.body = None

    def ready(self):
        return self.pred is None or self.pred()

    def main(self):
        self.ident = _thread.get_ident()
        self.baton.acquire()
        s = self.sched
        try:
            if not self.killed:
                self.body()
        except Kill:
            pass
        except BaseException as exc:
            if s.error is None and not self.killed:
                s.error = exc
                s.failed = True
        self.done = True
        if not s.closing:
            if s.error is not None:
                s.cur = s.main
                s.main.baton.release()
            else:
                try:
                    s.pass_on()
                except BaseException as exc:
                    s.error = exc
                    s.cur = s.main
                    s.main.baton.release()
        self.ended.release()


class Proc:
    """What belongs to one process: output buffer, queue feeders."""

    def __init__(self, world):
        self.world = world
        self.buffer = []
        self.size = 0
        self.gone = False
        self.redirected = False     # standard output goes to /dev/null


class Sched:
    def __init__(self, world, env, switches, prefix=""):
        self.world = world
        self.env = env
        self.left = switches
        self.used = 0
        self.prefix = prefix
        self.error = None
        self.failed = False
        self.closing = False
        self.point = 0
        self.steps = 0
        self.at = None
        self.trace = []
        self.main = Task(self, "main", Proc(world))
        self.main.ident = _thread.get_ident()
        self.cur = self.main
        self.tasks = [self.main]

    # -- decisions
    def choose(self, n):
        """0 (the default) or a deviation 1..n-1."""
        self.point += 1
        if self.used >= self.left:
            return 0
        if self.at is None:
            self.at = self.env.int(f"{self.prefix}at{self.used}", 1, NEVER)
            self.env.assume(self.at >= self.point)
        if self.at == self.point:
            k = self.env.pick(f"{self.prefix}which{self.used}", range(1, n))
            self.used += 1
            self.at = None
            return k
        return 0

    def next(self):
        """(task, whether its wait times out) of the one that goes on."""
        live = [t for t in self.tasks if not t.done]
        cur = self.cur
        i = live.index(cur) if cur in live else -1
        order = live[i:] + live[:i] if i >= 0 else live
        ready = [t for t in order if t.ready()]
        options = [(t, False) for t in ready]
        waits = sorted((t for t in live if t.timer == "short" and (t.early or t not in ready)),
                       key=lambda t: t.since)
        if options or waits:
            clock = self.world.clock
            options += [(t, True) for t in live if t.timer == "long" and t.until <= clock and
                        t not in ready]
            options += [(t, True) for t in waits]
        else:
            options = [(t, True) for t in sorted((t for t in live if t.timer == "long"),
                                                 key=lambda t: t.since)][:1]
        if not options:
            raise Stuck("deadlock: " + ", ".join(t.name for t in live))
        if len(options) == 1:
            return options[0]
        return options[self.choose(len(options))]

    def pass_on(self):
        self.steps += 1
        try:
            if self.steps > MAXSTEPS:
                raise Stuck("does not end")
            t, timeout = self.next()
        except BaseException:
            self.failed = True
            raise
        t.timed_out = timeout
        if timeout:
            self.world.clock += 1
        me, self.cur = self.cur, t
        if t is not me:
            t.baton.release()
        return t

    def switch(self, pred=None, timer=None, early=False, limit=0):
        """Yield.  Goes on when `pred` holds (True) or the wait timed out (False).  A short wait may
        time out at any moment; a long one does so when nobody else can do anything or when `limit`
        waits of others timed out."""
        me = self.cur
        if me.ident != _thread.get_ident():
            raise RuntimeError("a simulated process runs out of turn")
        if me.killed:
            raise Kill()
        me.pred, me.timer, me.early = pred, timer, early
        me.since = self.steps
        me.until = self.world.clock + limit
        t = self.pass_on()
        if t is not me:
            me.baton.acquire()
            if me.killed:
                raise Kill()
            if self.error is not None and me is self.main:
                exc, self.error = self.error, None
                raise exc
        me.pred = me.timer = None
        me.early = False
        return not me.timed_out

    def spawn(self, name, proc, body):
        t = Task(self, name, proc)
        t.body = body
        self.tasks.append(t)
        _thread.start_new_thread(t.main, ())
        return t

    def kill(self, t):
        """Another process is gone."""
        t.killed = True
        if t.done or t is self.cur:
            return
        # Let it unwind; whatever it does meanwhile has no effect on the others.
        me, closing = self.cur, self.closing
        self.closing = True
        self.cur = t
        t.baton.release()
        t.ended.acquire()
        t.ended.release()
        self.closing = closing
        self.cur = me

    def close(self):
        """End whatever is left."""
        self.closing = True
        for t in self.tasks[1:]:
            if t.done:
                continue
            t.killed = True
            if t is self.cur:
                # It did not come back: interrupted in the middle of something.
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident),
                                                           ctypes.py_object(Kill))
            else:
                self.cur = t
                t.baton.release()
            t.ended.acquire()
        self.tasks = []


# ------------------------------------------------------------------ sharing --
class Shared(core.Fake):
    """Marks what processes share."""


class _Pickler(pickle.Pickler):
    def __init__(self, f, refs):
        super().__init__(f, 4)
        self.refs = refs

    def persistent_id(self, obj):
        t = type(obj)
        if t in values.SYM or isinstance(obj, (World, world.Node, world.Stat)):
            self.refs.append(obj)
            return len(self.refs) - 1
        return None


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, refs):
        super().__init__(f)
        self.refs = refs

    def persistent_load(self, i):
        return self.refs[i]


def send(obj):
    """What arrives at the other end of a queue."""
    if obj is None:
        return None
    refs = []
    f = io.BytesIO()
    _Pickler(f, refs).dump(obj)
    f.seek(0)
    return _Unpickler(f, refs).load()


def fork(obj, memo):
    """The copy of an object in a new process."""
    t = type(obj)
    if t in _ATOMS:
        return obj
    got = memo.get(id(obj))
    if got is not None:
        return got[0]
    if t is dict or isinstance(obj, dict):
        new = {} if t is dict else t.__new__(t)
        memo[id(obj)] = (new, obj)
        for k, v in dict.items(obj):
            dict.__setitem__(new, fork(k, memo), fork(v, memo))
        if t is collections.defaultdict:
            new.default_factory = obj.default_factory
        if t is not dict and hasattr(obj, "__dict__"):
            new.__dict__.update(fork(dict(obj.__dict__), memo))
        return new
    if isinstance(obj, (list, collections.deque)):
        new = t.__new__(t)
        memo[id(obj)] = (new, obj)
        base = list if isinstance(obj, list) else collections.deque
        for x in base.__iter__(obj):
            base.append(new, fork(x, memo))
        if hasattr(obj, "__dict__"):
            new.__dict__.update(fork(dict(obj.__dict__), memo))
        return new
    if isinstance(obj, set):
        new = t.__new__(t)
        memo[id(obj)] = (new, obj)
        set.update(new, [fork(x, memo) for x in set.__iter__(obj)])
        return new
    if isinstance(obj, tuple):
        xs = [fork(x, memo) for x in obj]
        if all(a is b for a, b in zip(xs, obj)):
            new = obj
        else:
            new = tuple(xs) if t is tuple else t._make(xs) if hasattr(t, "_make") else obj
        memo[id(obj)] = (new, obj)
        return new
    if t is types.MethodType:
        return types.MethodType(obj.__func__, fork(obj.__self__, memo))
    if isinstance(obj, sql.Connection):
        new = copy.copy(obj)
        new.inherited = True
        memo[id(obj)] = (new, obj)
        return new
    if isinstance(obj, sql.Faulty):
        new = obj.again()
        new.inherited = True
        memo[id(obj)] = (new, obj)
        return new
    mod = t.__module__
    if isinstance(obj, (Shared, type, types.ModuleType)) or not mod.startswith(("libff", "props")):
        return obj
    new = object.__new__(t)
    memo[id(obj)] = (new, obj)
    if hasattr(obj, "__dict__"):
        for k, v in obj.__dict__.items():
            new.__dict__[k] = fork(v, memo)
    for c in t.__mro__:
        slots = c.__dict__.get("__slots__", ())
        for s in (slots,) if isinstance(slots, str) else slots:
            if s not in ("__dict__", "__weakref__") and hasattr(obj, s):
                object.__setattr__(new, s, fork(getattr(obj, s), memo))
    return new


_ATOMS = {type(None), bool, int, float, str, bytes, types.FunctionType, types.BuiltinFunctionType,
          type, types.ModuleType, frozenset, range}


class Lock(Shared):
    reentrant = False

    def __init__(self, w):
        self.s = w.sched
        self.owner = None
        self.count = 0

    def acquire(self, block=True, timeout=None):
        me = self.s.cur
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        if not block:
            self.s.switch()
            if self.owner is not None:
                return False
        elif not self.s.switch(lambda: self.owner is None,
                               None if timeout is None or timeout < 0 else "short"):
            return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.s.cur.killed or self.s.failed:
            return
        if self.owner is None:
            raise ValueError("semaphore or lock released too many times")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


class Semaphore(Shared):
    def __init__(self, w, value=1):
        self.s = w.sched
        self.value = value

    def acquire(self, block=True, timeout=None):
        if not block:
            self.s.switch()
            if not self.value:
                return False
        elif not self.s.switch(lambda: self.value > 0, None if timeout is None else "short"):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        if not self.s.cur.killed:
            self.value += n

    def get_value(self):
        return self.value

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class _Cell:
    on = False


class Condition(Shared):
    def __init__(self, w, lock=None):
        self.s = w.sched
        self.lock = lock if lock is not None else RLock(w)
        self.turn = 0
        self.waiting = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        self.lock.__exit__(*a)

    def wait(self, timeout=None):
        lock, count = self.lock, self.lock.count
        cell = _Cell()
        self.waiting.append(cell)
        lock.owner, lock.count = None, 0
        ok = self.s.switch(lambda: cell.on, None if timeout is None else "short")
        if not ok and cell in self.waiting:
            self.waiting.remove(cell)
        if lock.owner is not None:
            self.s.switch(lambda: lock.owner is None)
        lock.owner, lock.count = self.s.cur, count
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for cell in self.waiting[:n]:
            cell.on = True
        del self.waiting[:n]

    def notify_all(self):
        self.notify(len(self.waiting))


class Event(Shared):
    def __init__(self, w):
        self.s = w.sched
        self.on = False

    def is_set(self):
        return self.on

    def set(self):
        self.s.switch()
        self.on = True

    def clear(self):
        self.s.switch()
        self.on = False

    def wait(self, timeout=None):
        self.s.switch(lambda: self.on, None if timeout is None else "short")
        return self.on


class Barrier(threading.Barrier, Shared):
    """The library's barrier on a modelled condition variable."""

    def __init__(self, w, parties, action=None, timeout=None):
        self._cond = Condition(w)
        self._action = action
        self._timeout = timeout
        self._parties = parties
        self._state = 0
        self._count = 0


class Value(Shared):
    def __init__(self, w, v, lock=True):
        d = self.__dict__
        d["s"] = w.sched
        d["v"] = v
        d["lock"] = RLock(w)

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        self.s.switch()
        self.__dict__["v"] = v

    def get_lock(self):
        return self.lock

    def get_obj(self):
        return self

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        self.lock.__exit__(*a)


class Queue(Shared):
    """A multiprocessing queue.  An object that was put counts at once, but it takes a moment until
    it can be got: as long as the process that put it lives, a get with a timeout may miss it.  The
    pipe holds `room` objects; a process that ends waits until its objects fit."""

    local = False

    def __init__(self, w, maxsize=0):
        self.s = w.sched
        self.w = w
        self.maxsize = maxsize
        self.items = collections.deque()    # (object, process that put it)
        self.closed = set()
        self.room = w.room
        w.queues.append(self)

    def put(self, obj, block=True, timeout=None):
        s = self.s
        me = s.cur.proc
        if me in self.closed:
            raise ValueError("Queue is closed")
        if self.maxsize > 0:
            if not block:
                s.switch()
                if len(self.items) >= self.maxsize:
                    raise queue.Full
            elif not s.switch(lambda: len(self.items) < self.maxsize,
                              None if timeout is None else "short"):
                raise queue.Full
        else:
            s.switch()
        self.w.sent.add(type(obj).__name__)
        self.items.append((obj if self.local else send(obj), me))

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = self.s
        if s.cur.proc in self.closed:
            raise ValueError("Queue is closed")
        if not block:
            s.switch()
            if not self.items:
                raise queue.Empty
        else:
            early = bool(self.items) and not self.local and \
                not all(p.gone for _, p in self.items) and timeout is not None
            if not s.switch(lambda: self.items, None if timeout is None else "short", early):
                raise queue.Empty
        return self.items.popleft()[0]

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        self.s.switch()
        return not self.items

    def full(self):
        return 0 < self.maxsize <= len(self.items)

    def close(self):
        self.closed.add(self.s.cur.proc)

    def flushed(self, proc):
        """Do all objects of the process fit into the pipe?"""
        return all(p is not proc for _, p in list(self.items)[self.room:])

    def join_thread(self):
        proc = self.s.cur.proc
        self.s.switch(lambda: self.flushed(proc))

    def cancel_join_thread(self):
        pass


class ThreadQueue(Queue):
    local = True

    def __init__(self, w, maxsize=0):
        super().__init__(w, maxsize)
        self.unfinished = 0

    def put(self, obj, block=True, timeout=None):
        super().put(obj, block, timeout)
        self.unfinished += 1

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        self.s.switch(lambda: not self.unfinished)


class Stdout(Out, Shared):
    """Standard output of all processes: a buffer per process and one pipe behind them, into which
    not more than 4096 characters go at once."""

    PIPE = 4096

    def __init__(self, w):
        super().__init__()
        self.w = w

    def write(self, s):
        out = Out(self.encoding)
        out.errors = self.errors
        n = out.write(s)
        proc = self.w.sched.cur.proc
        proc.buffer += out.parts
        proc.size += n
        if proc.size > 2 * self.PIPE:
            self.flush()
        return n

    def flush(self):
        sched = self.w.sched
        if sched.closing:
            return
        proc = sched.cur.proc
        if not proc.buffer:
            return
        text = Out()
        text.parts = proc.buffer
        text = text.text()
        while text:
            sched.switch()
            if proc.redirected:
                break
            if self.w.output_closed():
                self.w.refused_output = True
                raise BrokenPipeError(32, "Broken pipe")
            self.parts.append(text[:self.PIPE])
            text = text[self.PIPE:]
        proc.buffer = []
        proc.size = 0

    def fileno(self):
        return 1


class Process(Shared):
    def __init__(self, w, target, args, kwargs, daemon=None, name=None):
        self.w = w
        self.target, self.args, self.kwargs = target, args, kwargs
        self.daemon = bool(daemon)
        self.exitcode = None
        self.name = name or f"process {len(w.processes)}"
        self.pid = None
        self.task = None

    def start(self):
        w = self.w
        w.stdout.flush()
        w.forking()
        memo = {}
        target = fork(self.target, memo)
        args, kwargs = fork(self.args, memo), fork(self.kwargs, memo)
        proc = Proc(w)

        def body():
            self.exitcode_ = 1
            try:
                try:
                    target(*args, **kwargs)
                    self.exitcode_ = 0
                except SystemExit as exc:
                    self.exitcode_ = exc.code if isinstance(exc.code, int) else \
                        0 if exc.code is None else 1
                except (core.Abort, core.Unsupported, core.Hang, core.Budget, Kill, Vanish, Stuck):
                    raise
                except BaseException:
                    if core.ENGINE is None or not w.strict:
                        traceback.print_exc()
                    w.tracebacks += 1
                try:
                    w.stdout.flush()
                except OSError:
                    self.exitcode_ = 1
                for q in w.queues:
                    if not q.local and not q.flushed(proc):
                        w.sched.switch(lambda q=q: q.flushed(proc))
            except Vanish as exc:
                self.exitcode_ = exc.status
            finally:
                self.exitcode = -9 if self.task.killed else self.exitcode_
                proc.gone = True

        self.pid = len(w.processes) + 2
        w.processes.append(self)
        self.task = w.sched.spawn(self.name, proc, body)
        w.sched.switch()

    def run(self):
        self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        if self.task is None:
            raise AssertionError("can only join a started process")
        if timeout is not None and timeout <= 0:
            return
        self.w.sched.switch(lambda: self.task.done, None if timeout is None else "long",
                            limit=0 if timeout is None else timeout)

    def is_alive(self):
        return self.task is not None and not self.task.done

    def terminate(self):
        if self.task is not None and not self.task.done:
            self.w.sched.kill(self.task)

    kill = terminate

    def close(self):
        pass

    @property
    def ident(self):
        return self.pid


class Thread(Process):
    def start(self):
        w = self.w

        def body():
            try:
                self.target(*self.args, **self.kwargs)
            except (core.Abort, core.Unsupported, core.Hang, core.Budget, Kill, Stuck):
                raise
            except BaseException:
                traceback.print_exc()
                w.tracebacks += 1

        w.threads.append(self)
        self.task = w.sched.spawn(self.name, w.sched.cur.proc, body)
        w.sched.switch()

    ident = native_id = 2


class Popen(FakePopen):
    """A command that runs for a while."""

    def __init__(self, w, args, rc):
        super().__init__(args, rc)
        self.w = w
        self.terminated = False

    def wait(self, timeout=None):
        if self.returncode is None:
            import subprocess
            if not self.w.sched.switch(None, None if timeout is None else "short",
                                       timeout is not None):
                raise subprocess.TimeoutExpired(self.args, timeout)
        return super().wait()

    def terminate(self):
        self.terminated = True
        self.w.terminated.append(self.args)

    kill = terminate


class SchedWorld(World):
    """A World in which the programme's processes really run side by side.  Use as

        with SchedWorld(root, env, switches) as world:
            ...

    which also makes it the active one and ends all processes at the end."""

    strict = False

    def __init__(self, root, env, switches=0, outcome=None, room=1 << 30, name=""):
        super().__init__(root)
        self.sched = Sched(self, env, switches, name)
        self.stdout = Stdout(self)
        self.room = room
        self.queues = []
        self.sent = set()           # names of the types of the objects that went through a queue
        self.processes = []
        self.threads = []
        self.tracebacks = 0
        self.outcome = outcome or (lambda n, args: 0)
        self.started = []
        self.refused = []
        self.terminated = []
        self._active = world.active(self)
        self.close_output_at = None
        self.refused_output = False

    def __enter__(self):
        self._active.__enter__()
        return self

    def __exit__(self, *a):
        world.CUR, cur = None, world.CUR
        try:
            self.sched.close()
        finally:
            world.CUR = cur
            self._active.__exit__(*a)

    def output_closed(self):
        return self.close_output_at is not None and len(self.stdout.parts) >= self.close_output_at

    def time(self):
        return self.clock

    def scandir(self, path):
        self.sched.switch()
        return super().scandir(path)

    def sleep(self, s):
        self.sched.switch(lambda: False, "short")

    def end(self):
        """What the interpreter does when the programme ends."""
        try:
            self.stdout.flush()
        except BrokenPipeError:
            self.stderr.write("Exception ignored in: <stdout>\nBrokenPipeError\n")
        for p in self.processes:
            if p.daemon:
                p.terminate()
        for p in self.processes:
            if not p.daemon:
                p.join()

    def settle(self):
        """Let all processes come to their end; returns those that do not."""
        alive = [p for p in self.processes if p.is_alive()]
        end = self.sched.steps + 500
        if alive:
            self.sched.switch(lambda: self.sched.steps > end or not any(p.is_alive() for p in alive),
                              "long", limit=NEVER)
        return [p for p in self.processes if p.is_alive()]

    # -- commands
    def popen(self, args, **kw):
        if isinstance(args, str) or kw.get("shell"):
            raise AssertionError("a command is started through a shell")
        args = list(args)
        self.sched.switch()
        r = self.outcome(len(self.started) + len(self.refused), args)
        if r < 0:
            self.refused.append(args)
            raise OSError(-r, os.strerror(-r), args[0])
        self.started.append(args)
        return Popen(self, args, r)

    # -- redirection of standard output
    NULL = 99

    def os_open(self, path, flags, *a, **k):
        if path != os.devnull:
            raise core.Unsupported("os.open")
        return self.NULL

    def os_dup2(self, fd, fd2, *a, **k):
        if (fd, fd2) != (self.NULL, 1):
            raise core.Unsupported("os.dup2")
        self.sched.cur.proc.redirected = True
        return fd2

    def os_close(self, fd):
        if fd != self.NULL:
            raise core.Unsupported("os.close")

    # -- multiprocessing
    def Queue(self, maxsize=0):
        return Queue(self, maxsize)

    def JoinableQueue(self, maxsize=0):
        raise core.Unsupported("multiprocessing.JoinableQueue")

    def ThreadQueue(self, maxsize=0):
        return ThreadQueue(self, maxsize)

    def Lock(self):
        return Lock(self)

    def RLock(self):
        return RLock(self)

    def Semaphore(self, value=1):
        return Semaphore(self, value)

    BoundedSemaphore = Semaphore

    def Condition(self, lock=None):
        return Condition(self, lock)

    def Event(self):
        return Event(self)

    ThreadLock, ThreadSemaphore, ThreadBoundedSemaphore = Lock, Semaphore, Semaphore
    ThreadCondition, ThreadEvent = Condition, Event

    def Barrier(self, parties, action=None, timeout=None):
        return Barrier(self, parties, action, timeout)

    def Value(self, typecode, *args, lock=True):
        return Value(self, args[0] if args else 0)

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        return Process(self, target, args, kwargs or {}, daemon, name)

    def Thread(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        return Thread(self, target, args, kwargs or {}, daemon, name)
