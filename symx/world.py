"""The environment the checked code runs in: a virtual file system, captured standard streams, and
stand-ins for processes, locks and time.  The same stand-ins serve the symbolic run and the native
replay.  They are dispatched to only while a World is active (CUR is not None); otherwise every
patched function is the real one."""

import builtins
import collections
import errno
import grp
import io
import math
import multiprocessing
import multiprocessing.sharedctypes
import os
import pwd
import queue
import signal
import stat
import subprocess
import sys
import threading
import time

from . import core, values
from .values import SymBytes, SymStr, has_sym

CUR = None
real = {}


class Stat(core.Fake):
    """os.stat_result stand-in."""

    def __init__(self, mode=0o100644, ino=1, dev=1, nlink=1, uid=0, gid=0, size=0, atime=0,
                 mtime=0, ctime=0):
        self.st_mode = mode
        self.st_ino = ino
        self.st_dev = dev
        self.st_nlink = nlink
        self.st_uid = uid
        self.st_gid = gid
        self.st_size = size
        self.st_atime = atime
        self.st_mtime = mtime
        self.st_ctime = ctime
        self.st_blocks = 0
        self.st_blksize = 4096

    st_atime_ns = property(lambda self: math.floor(self.st_atime * 10 ** 9))
    st_mtime_ns = property(lambda self: math.floor(self.st_mtime * 10 ** 9))
    st_ctime_ns = property(lambda self: math.floor(self.st_ctime * 10 ** 9))

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid,
                self.st_size, math.floor(self.st_atime), math.floor(self.st_mtime), math.floor(self.st_ctime))[i]


FMT = {"f": stat.S_IFREG, "d": stat.S_IFDIR, "l": stat.S_IFLNK, "p": stat.S_IFIFO,
       "s": stat.S_IFSOCK, "c": stat.S_IFCHR, "b": stat.S_IFBLK}
_ino = [100]


class Node:
    """A file of the virtual file system."""

    def __init__(self, kind="f", children=None, data=b"", target=None, mode=None, errors=None,
                 xattrs=None, **st):
        self.kind = kind
        self.children = list(children.items()) if isinstance(children, dict) else \
            list(children or [])
        self.data = data
        self.target = target
        self.errors = dict(errors or {})     # operation -> errno
        self.xattrs = list(xattrs.items()) if isinstance(xattrs, dict) else list(xattrs or [])
        if mode is None:
            mode = FMT[kind] | (0o755 if kind == "d" else 0o777 if kind == "l" else 0o644)
        if "size" not in st and kind == "f":
            st["size"] = len(data)
        self.st = Stat(mode=mode, **st)

    def fail(self, op, path):
        e = self.errors.get(op)
        if e is not None:
            if callable(e):
                e = e()
                if e is None:
                    return
            raise OSError(e, os.strerror(e), path)


def D(_children=None, **kw):
    return Node("d", children=_children, **kw)


def F(data=b"", **kw):
    return Node("f", data=data, **kw)


def L(target, **kw):
    return Node("l", target=target, **kw)


class DirEntry(core.Fake):
    def __init__(self, world, dirpath, name, node):
        self._world = world
        self.name = name
        self._node = node
        self._dir = dirpath

    @property
    def path(self):
        if self._dir == "" or self._dir == ".":
            return "./" + self.name if self._dir == "." else self.name
        return self._dir.rstrip("/") + "/" + self.name if self._dir != "/" else "/" + self.name

    def stat(self, *, follow_symlinks=True):
        self._world.log("stat", self.path)
        self._node.fail("stat", self.path)
        if follow_symlinks and self._node.kind == "l":
            return self._world.stat(self.path)
        return self._node.st

    def is_dir(self, *, follow_symlinks=True):
        try:
            return stat.S_ISDIR(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return stat.S_ISREG(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_symlink(self):
        return self._node.kind == "l"

    def inode(self):
        return self._node.st.st_ino

    def __fspath__(self):
        return self.path


class Scan(core.Fake):
    def __init__(self, entries, fail_at=None, exc=None):
        self._it = iter(entries)
        self._n = 0
        self._fail_at = fail_at
        self._exc = exc

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        if self._fail_at is not None and self._n == self._fail_at:
            raise self._exc
        self._n += 1
        return next(self._it)


class File(core.Fake):
    """Binary or text file object over concrete or symbolic content."""

    def __init__(self, world, path, data, mode, encoding, errors, newline, node):
        self._world = world
        self.name = path
        self.mode = mode
        self.node = node
        self.closed = False
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self.text = "b" not in mode
        self.newline = newline
        self.data = data
        self.pos = 0
        self._decoded = not self.text

    def _prepare(self):
        self.node.fail("read", self.name)
        if not self._decoded:
            d = self.data
            if isinstance(d, bytes):
                d = d.decode(self.encoding, self.errors)
            if self.newline is None:
                d = _newlines(d)
            self.data = d
            self._decoded = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def fileno(self):
        raise core.Unsupported("fileno")

    def isatty(self):
        return False

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        self._prepare()
        n = len(self.data) if n is None or n < 0 else n
        r = self.data[self.pos:self.pos + n]
        self.pos = min(len(self.data), self.pos + n)
        return r

    read1 = read

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        self._prepare()
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def readline(self, limit=-1):
        self._prepare()
        nl = "\n" if self.text else b"\n"
        if self.pos >= len(self.data):
            return nl[:0]
        rest = self.data[self.pos:]
        i = values._promote(rest).find(nl)
        end = len(self.data) if i < 0 else self.pos + i + 1
        if limit is not None and limit >= 0:
            end = min(end, self.pos + limit)
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def readlines(self, hint=-1):
        return list(self)


def _newlines(d):
    if not has_sym(d):
        return d.replace("\r\n", "\n").replace("\r", "\n")
    return values._promote(d).replace("\r\n", "\n").replace("\r", "\n")


class Out(core.Fake):
    """Captured text stream."""

    def __init__(self, encoding="utf-8", tty=False):
        self.parts = []
        self.encoding = encoding
        self.tty = tty
        self.closed = False
        self.errors = "strict"

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(f"write() argument must be str, not {type(s).__name__}")
        if self.errors != "strict":
            pass
        elif type(s) is str:
            s.encode(self.encoding)
        elif any(not isinstance(c, int) and max(c.dom) >= 0xd800 or
                 isinstance(c, int) and 0xd800 <= c < 0xe000 for c in s.c):
            sur = frozenset(range(0xd800, 0xe000))
            if values.decide(values.Or(*[values.in_set(c, sur) for c in s.c])):
                raise UnicodeEncodeError(self.encoding, "\udc80", 0, 1, "surrogates not allowed")
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass

    def isatty(self):
        return self.tty

    def fileno(self):
        raise core.Unsupported("fileno")

    def reconfigure(self, **kw):
        pass

    def text(self):
        if has_sym(self.parts):
            out = []
            for p in self.parts:
                out.extend(values.chars(p))
            return values.mkstr(out)
        return "".join(self.parts)


class World:
    """Default environment: an empty file system in which every process start is refused."""

    def __init__(self, root=None, cwd="/w"):
        self.root = root if root is not None else D({})
        self.cwd = cwd
        self.stdout = Out()
        self.stderr = Out()
        self.stderr.errors = "backslashreplace"
        self.events = []
        self.clock = 1_000_000_000
        self.users = {}
        self.groups = {}
        self.environ = {"HOME": "/nonexistent"}

    def log(self, op, path):
        self.events.append((op, path))

    # -- lookup ------------------------------------------------------------
    def child(self, node, name, path):
        for n, c in node.children:
            if n == name:
                return c
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    def lookup(self, path, follow=True):
        if isinstance(path, (bytes, SymBytes)):
            path = path.decode("utf-8", "surrogateescape")
        if hasattr(path, "__fspath__") and not isinstance(path, str):
            path = path.__fspath__()
        if isinstance(path, int):
            raise OSError(errno.EBADF, "bad file descriptor")
        if not len(path):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if has_sym(path):
            p = path
        else:
            p = path
            if "\0" in p:
                raise ValueError("embedded null byte")
        parts = [x for x in p.split("/")]
        if p.startswith("/"):
            cur = [self.root]
        else:
            cur = [self.root]
            parts = [x for x in self.cwd.split("/")] + parts
        depth = 0
        while parts:
            name = parts.pop(0)
            if not len(name) or name == ".":
                if parts and not parts[-1:] == [""] and cur[-1].kind != "d":
                    pass
                if cur[-1].kind != "d":
                    raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
                continue
            node = cur[-1]
            if node.kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            if name == "..":
                if len(cur) > 1:
                    cur.pop()
                continue
            node.fail("search", path)
            c = self.child(node, name, path)
            if c.kind == "l" and (follow or parts):
                depth += 1
                if depth > 20:
                    raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
                c.fail("readlink", path)
                t = c.target
                if t.startswith("/"):
                    cur = [self.root]
                parts = t.split("/") + parts
                continue
            cur.append(c)
        return cur[-1]

    # -- system calls ------------------------------------------------------
    def stat(self, path, follow=True):
        node = self.lookup(path, follow)
        node.fail("stat", path)
        return node.st

    def scandir(self, path="."):
        self.log("scandir", path)
        node = self.lookup(path)
        node.fail("scandir", path)
        if node.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        exc = None
        fail_at = node.errors.get("iter_at")
        if fail_at is not None:
            e = node.errors.get("iter_errno", errno.EIO)
            exc = OSError(e, os.strerror(e), path)
        return Scan([DirEntry(self, path, n, c) for n, c in node.children], fail_at, exc)

    def listdir(self, path="."):
        return [e.name for e in self.scandir(path)]

    def readlink(self, path):
        node = self.lookup(path, False)
        node.fail("readlink", path)
        if node.kind != "l":
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), path)
        return node.target

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
            raise PermissionError(errno.EACCES, "read-only virtual file system", path)
        node = self.lookup(path)
        self.log("open", path)
        self.opened(node, path)
        node.fail("open", path)
        if node.kind == "d":
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        return File(self, path, node.data, mode, encoding, errors, newline, node)

    def opened(self, node, path):
        pass

    def listxattr(self, path, follow=True):
        node = self.lookup(path, follow)
        node.fail("xattr", path)
        return [k for k, v in node.xattrs]

    def getxattr(self, path, name, follow=True):
        node = self.lookup(path, follow)
        node.fail("getxattr", path)
        for k, v in node.xattrs:
            if k == name:
                return v
        raise OSError(errno.ENODATA, os.strerror(errno.ENODATA), path)

    def access(self, path, mode):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    def getpwuid(self, uid):
        for k, v in self.users.items():
            if k == uid:
                return pwd.struct_passwd((v, "x", uid, 0, "", "", ""))
        raise KeyError("getpwuid(): uid not found")

    def getgrgid(self, gid):
        for k, v in self.groups.items():
            if k == gid:
                return grp.struct_group((v, "x", gid, []))
        raise KeyError("getgrgid(): gid not found")

    def time(self):
        return self.clock

    def sleep(self, s):
        self.clock += s

    def popen(self, args, **kw):
        raise FileNotFoundError(errno.ENOENT, "no such command", str(args))

    # -- databases ---------------------------------------------------------
    fault = None            # called before a write or commit; may raise sqlite3.OperationalError

    def forking(self):
        """Called when a process is about to be started."""

    def connect(self, path, *a, **kw):
        from . import loader, sql
        if loader.Loader.symbolic:
            if not hasattr(self, "databases"):
                self.databases = {}
            return sql.Connection(self.databases, path, *a, fault=self.fault, **kw)
        if not hasattr(self, "databases"):
            self.databases = sql.RealStore()
        return self.databases.connect(path, self.fault, *a, **kw)

    # -- multiprocessing ---------------------------------------------------
    def Queue(self, maxsize=0):
        return SeqQueue(self, maxsize)

    def Lock(self):
        return SeqLock()

    RLock = Lock

    def Barrier(self, parties, action=None, timeout=None):
        return SeqBarrier(self, parties)

    def Value(self, typecode, *args, lock=True):
        return SeqValue(args[0] if args else 0)

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        return SeqProcess(self, target, args, kwargs or {})

    def Thread(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        return SeqThread(self, target, args, kwargs or {})


class SeqLock(core.Fake):
    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return True

    def __exit__(self, *a):
        return None


class SeqValue(core.Fake):
    def __init__(self, v):
        self.value = v
        self._lock = SeqLock()

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self


class SeqQueue(core.Fake):
    """FIFO queue for runs in which one process does everything."""

    def __init__(self, world, maxsize=0):
        self.items = collections.deque()
        self.world = world
        self.closed = False

    def put(self, obj, block=True, timeout=None):
        if self.closed:
            raise ValueError("queue is closed")
        self.items.append(obj)

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not self.items:
            raise queue.Empty
        return self.items.popleft()

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return False

    def close(self):
        self.closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SeqBarrier(core.Fake):
    """In a sequential run a process that waits at the barrier finds all others there."""

    def __init__(self, world, parties):
        self.n_waiting = 0
        self.parties = parties
        self.broken = False

    def wait(self, timeout=None):
        return 0

    def reset(self):
        pass

    def abort(self):
        pass


class SeqProcess(core.Fake):
    """Runs its target to completion when started."""

    def __init__(self, world, target, args, kwargs):
        self.target, self.args, self.kwargs = target, args, kwargs
        self.daemon = False
        self.exitcode = None
        self.name = "process"
        self.pid = 1

    def start(self):
        self.target(*self.args, **self.kwargs)
        self.exitcode = 0

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False

    def terminate(self):
        pass

    kill = close = terminate


class SeqThread(SeqProcess):
    """Runs its target when it is waited for."""

    ident = native_id = 2

    def start(self):
        self.exitcode = None

    def join(self, timeout=None):
        if self.exitcode is None:
            self.exitcode = 0
            self.target(*self.args, **self.kwargs)

    def is_alive(self):
        return self.exitcode is None


class FakePopen(core.Fake):
    """Finished process handed out by World.popen implementations."""

    def __init__(self, args, returncode=0, stdout=None, stderr=None, text=False):
        self.args = args
        self._rc = returncode
        self.returncode = None
        self.pid = 1
        self._out = stdout
        self._err = stderr
        self.stdin = None
        self.stdout = None if stdout is None else _Lines(stdout)
        self.stderr = None if stderr is None else _Lines(stderr)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return self._out, self._err

    def terminate(self):
        pass

    kill = terminate

    def send_signal(self, sig):
        pass


class _Lines(core.Fake):
    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read(self, n=-1):
        r = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        nl = "\n" if isinstance(self.data, str) else b"\n"
        rest = self.data[self.pos:]
        if not len(rest):
            return rest
        i = values._promote(rest).find(nl)
        r = rest if i < 0 else rest[:i + 1]
        self.pos += len(r)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def close(self):
        self.closed = True


# ------------------------------------------------------------------ patches --
def _dispatch(mod, name, to):
    orig = getattr(mod, name)
    real[(mod.__name__, name)] = orig

    def f(*a, **k):
        w = CUR
        if w is None:
            return orig(*a, **k)
        return to(w, *a, **k)
    f.__name__ = name
    f.__wrapped__ = orig
    setattr(mod, name, f)


def _popen_shim(orig):
    class Popen(orig):
        def __new__(cls, *a, **k):
            if CUR is not None:
                return CUR.popen(*a, **k)
            return orig.__new__(cls)
    Popen.__name__ = "Popen"
    return Popen


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _dispatch(os, "stat", lambda w, path, *, dir_fd=None, follow_symlinks=True:
              w.stat(path, follow_symlinks))
    _dispatch(os, "lstat", lambda w, path, *, dir_fd=None: w.stat(path, False))
    _dispatch(os, "scandir", lambda w, path=".": w.scandir(path))
    _dispatch(os, "listdir", lambda w, path=".": w.listdir(path))
    _dispatch(os, "readlink", lambda w, path, *, dir_fd=None: w.readlink(path))
    _dispatch(os, "getcwd", lambda w: w.cwd)
    _dispatch(os, "access", lambda w, path, mode, **k: w.access(path, mode))
    if hasattr(os, "listxattr"):
        _dispatch(os, "listxattr", lambda w, path=None, *, follow_symlinks=True:
                  w.listxattr("." if path is None else path, follow_symlinks))
        _dispatch(os, "getxattr",
                  lambda w, path, attr, *, follow_symlinks=True: w.getxattr(path, attr, follow_symlinks))
    for name in ("remove", "unlink", "rmdir", "mkdir", "makedirs", "rename", "replace", "chmod",
                 "symlink", "link", "truncate", "utime", "kill", "system", "chdir", "chown"):
        def refuse(w, *a, _name=name, **k):
            raise PermissionError(errno.EACCES, "not in the virtual world: os." + _name)
        _dispatch(os, name, refuse)
    for mod, names in ((os, ("open", "dup2", "close", "statvfs", "fork", "mkfifo", "fwalk", "popen")),
                       (multiprocessing, ("Condition", "Event", "Pool", "Pipe", "Manager",
                                          "Semaphore", "BoundedSemaphore", "Array", "RawArray"))):
        for name in names:
            def unmodelled(w, *a, _name=mod.__name__ + "." + name, **k):
                f = getattr(w, _name.split(".")[1] if _name[0] == "m" else _name.replace(".", "_"),
                            None)
                if f is None:
                    raise core.Unsupported(_name)
                return f(*a, **k)
            _dispatch(mod, name, unmodelled)
    _dispatch(builtins, "open", lambda w, *a, **k: w.open(*a, **k))
    io.open = builtins.open
    _dispatch(pwd, "getpwuid", lambda w, uid: w.getpwuid(uid))
    _dispatch(grp, "getgrgid", lambda w, gid: w.getgrgid(gid))
    _dispatch(time, "time", lambda w: w.time())
    _dispatch(time, "monotonic", lambda w: w.time())
    _dispatch(time, "sleep", lambda w, s: w.sleep(s))
    _dispatch(signal, "signal", lambda w, *a: None)
    real["perf"] = time.perf_counter
    for name in ("Queue", "Lock", "Barrier", "Value", "Process"):
        _dispatch(multiprocessing, name, lambda w, *a, _n=name, **k: getattr(w, _n)(*a, **k))
    _dispatch(multiprocessing, "RLock", lambda w, *a, **k: w.RLock())
    for alias in ("SimpleQueue", "JoinableQueue"):
        _dispatch(multiprocessing, alias, lambda w, *a, **k: w.Queue())
    sc = multiprocessing.sharedctypes
    for name in ("RawValue", "Value"):
        _dispatch(sc, name, lambda w, t, *a, **k: w.Value(t, *a))
    _dispatch(multiprocessing, "RawValue", lambda w, t, *a, **k: w.Value(t, *a))
    from . import dt
    dt.install()
    import sqlite3
    _dispatch(sqlite3, "connect", lambda w, *a, **k: w.connect(*a, **k))
    orig_thread = threading.Thread

    class Thread(orig_thread):
        def __new__(cls, *a, **k):
            if CUR is not None:
                return CUR.Thread(*a, **k)
            return orig_thread.__new__(cls)
    threading.Thread = Thread

    # Only a world that schedules threads has these.
    def shim(mod, name, method):
        orig = getattr(mod, name)

        class Shim(orig):
            def __new__(cls, *a, **k):
                f = getattr(CUR, method, None)
                if f is not None and cls is Shim:
                    return f(*a, **k)
                return orig.__new__(cls)
        Shim.__name__ = Shim.__qualname__ = name
        setattr(mod, name, Shim)
    shim(queue, "Queue", "ThreadQueue")
    for name in ("Condition", "Event", "Semaphore", "BoundedSemaphore"):
        shim(threading, name, "Thread" + name)
    orig_lock = threading.Lock

    def lock():
        f = getattr(CUR, "ThreadLock", None)
        return orig_lock() if f is None else f()
    threading.Lock = lock
    subprocess.Popen = _popen_shim(subprocess.Popen)


class Stream:
    """What the code finds as sys.stdout or sys.stderr while it is loaded, where it may keep it: the
    stream of the world that is active, or else the real one."""

    def __init__(self, name, real):
        self._name, self._real = name, real

    def __getattr__(self, attr):
        return getattr(self._real if CUR is None else getattr(CUR, self._name), attr)


class active:
    """Context manager making `world` the environment."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        global CUR
        self.saved = (CUR, sys.stdout, sys.stderr, os.environ)
        CUR = self.world
        if CUR is None:
            return None
        sys.stdout, sys.stderr = self.world.stdout, self.world.stderr
        os.environ = self.world.environ
        return self.world

    def __exit__(self, *a):
        global CUR
        CUR, sys.stdout, sys.stderr, os.environ = self.saved
