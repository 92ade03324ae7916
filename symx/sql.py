"""A model of sqlite3 for the statements a cache needs: tables without constraints other than a primary
key or unique columns, and single-table select, insert, update and delete with conjunctive conditions.  Cells and parameters may
be symbolic.  Anything else is refused as unmodelled.  In native runs the real library is used."""

import os
import re
import shutil
import sqlite3
import tempfile
import weakref

from . import core, values
from .values import And, Not, decide, has_sym

real_connect = sqlite3.connect

TOKEN = re.compile(r"""\s*(?:(?P<str>'(?:[^']|'')*')|(?P<q>"[^"]*"|`[^`]*`|\[[^\]]*\])|(?P<num>\d+)|(?P<name>[A-Za-z_]\w*)"""
                   r"""|(?P<par>\?\d*|:[A-Za-z_]\w*)|(?P<op><>|!=|<=|>=|==|\|\||[=<>(),*;.+-]))""")


class Pickled:
    """Stands for the pickle of an object with symbolic parts."""

    __class__ = property(lambda self: bytes)

    def __init__(self, obj):
        self.obj = obj


def settled(p):
    """The bytes of the pickle; forks over all values."""
    def go(x):
        if type(x) in (values.SymInt, values.SymBits):
            return x.__index__()
        if type(x) is values.SymBool:
            return bool(x)
        if type(x) in values.SYMSEQ:
            return x.concrete()
        if type(x) in (list, tuple):
            return type(x)([go(y) for y in x])
        if type(x) is dict:
            return {go(k): go(y) for k, y in x.items()}
        if type(x) in values.SYM:
            unsupported("order of symbolic values")
        return x
    import pickle
    return pickle.dumps(go(p.obj), pickle.HIGHEST_PROTOCOL)


def unsupported(what):
    raise core.Unsupported("sql: " + what)


def strict_eq(a, b):
    """z3/Python bool: do two objects have the same pickle?"""
    ta, tb = values_type(a), values_type(b)
    if ta is not tb:
        return False
    if ta in (tuple, list):
        return len(a) == len(b) and And(*[strict_eq(x, y) for x, y in zip(a, b)])
    if ta is dict:
        return len(a) == len(b) and And(*[And(strict_eq(k, m), strict_eq(a[k], b[m])) for k, m in zip(a, b)])
    from .models import sym_eq
    return sym_eq(a, b)


def values_type(x):
    if isinstance(x, bool) or type(x) is values.SymBool:
        return bool
    if type(x) in (values.SymInt, values.SymBits):
        return int
    if type(x) is values.SymStr:
        return str
    if type(x) is values.SymBytes:
        return bytes
    return type(x)


def cell_eq(a, b):
    import pickle
    if a is None or b is None:
        return False
    if type(a) is Pickled or type(b) is Pickled:
        if not (type(a) is Pickled):
            a, b = b, a
        if type(b) is Pickled:
            return strict_eq(a.obj, b.obj)
        if not isinstance(b, bytes):
            return False
        try:
            return strict_eq(a.obj, pickle.loads(b))
        except Exception:
            return False
    ta, tb = values_type(a), values_type(b)
    if ta is bool:
        ta = int
    if tb is bool:
        tb = int
    if ta is not tb:
        return False
    from .models import sym_eq
    return sym_eq(a, b)


def bind(v):
    if type(v) is Pickled or v is None or isinstance(v, (int, float, bytes)):
        return v
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, str):
        if type(v) is values.SymStr:
            v.encode("utf-8")
        else:
            v.encode("utf-8")
        return v
    raise sqlite3.InterfaceError("Error binding parameter: type is not supported")


class Table:
    def __init__(self, name, columns, keys, sql):
        self.name, self.columns, self.keys, self.sql = name, columns, keys, sql
        self.rows = []

    def copy(self):
        t = Table(self.name, self.columns, self.keys, self.sql)
        t.rows = [list(r) for r in self.rows]
        return t


class Database:
    def __init__(self):
        self.tables = {}
        self.indexes = {}       # name -> (table, sql)

    def copy(self):
        d = Database()
        d.tables = {k: t.copy() for k, t in self.tables.items()}
        d.indexes = dict(self.indexes)
        return d


def like(pattern, text, escape=None):
    out, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if escape and c == escape and i + 1 < len(pattern):
            i += 1
            out.append(re.escape(pattern[i]))
        elif c == "%":
            out.append(".*")
        elif c == "_":
            out.append(".")
        else:
            out.append(re.escape(c))
        i += 1
    return re.fullmatch("".join(out), text, re.S | re.I | re.A) is not None


def glob(pattern, text):
    import fnmatch
    return fnmatch.fnmatchcase(text, pattern.replace("[^", "[!"))


class Parser:
    def __init__(self, sql, params):
        self.sql = sql
        self.toks = []
        pos = 0
        sql = sql.rstrip()
        while pos < len(sql):
            m = TOKEN.match(sql, pos)
            if not m:
                unsupported(sql)
            kind = m.lastgroup
            text = m.group(kind)
            if kind == "str":
                text = text[1:-1].replace("''", "'")
            elif kind == "q":
                kind, text = "name", text[1:-1]
                self.toks.append(("ident", text))
                pos = m.end()
                continue
            self.toks.append((kind, text))
            pos = m.end()
        self.i = 0
        self.params = params
        self.used = 0

    def peek(self, *words):
        return self.i < len(self.toks) and self.toks[self.i][0] in ("name", "op") and \
            self.toks[self.i][1].lower() in words

    def take(self, *words):
        if self.peek(*words):
            self.i += 1
            return self.toks[self.i - 1][1].lower()
        return None

    def need(self, *words):
        r = self.take(*words)
        if r is None:
            unsupported(self.sql)
        return r

    def name(self):
        if self.i < len(self.toks) and self.toks[self.i][0] in ("name", "ident"):
            self.i += 1
            n = self.toks[self.i - 1][1]
            if self.take("."):
                return self.name()
            return n
        unsupported(self.sql)

    def value(self):
        kind, text = self.toks[self.i] if self.i < len(self.toks) else (None, None)
        self.i += 1
        if kind == "par":
            if text == "?":
                if isinstance(self.params, dict) or self.used >= len(self.params):
                    raise sqlite3.ProgrammingError("Incorrect number of bindings supplied")
                v = self.params[self.used]
                self.used += 1
            elif text[0] == ":":
                v = self.params[text[1:]]
                self.used = len(self.params)
            else:
                v = self.params[int(text[1:]) - 1]
                self.used = len(self.params)
            return bind(v)
        if kind == "str":
            return text
        if kind == "num":
            return int(text)
        if kind == "name" and text.lower() == "null":
            return None
        self.i -= 1
        unsupported(self.sql)

    def end(self):
        self.take(";")
        if self.i != len(self.toks):
            unsupported(self.sql)
        if self.used != len(self.params):
            raise sqlite3.ProgrammingError("Incorrect number of bindings supplied")

    def where(self):
        """[(column, operator, value)] or []"""
        if not self.take("where"):
            return []
        conds = []
        while True:
            conds.append(self.cond())
            if not self.take("and"):
                return conds

    def cond(self):
        par = bool(self.take("("))
        col = self.name()
        neg = bool(self.take("not"))
        op = self.need("=", "==", "!=", "<>", "like", "glob", "in", "is", "<", ">", "<=", ">=")
        esc = None
        if op == "in":
            self.need("(")
            v = [self.value()]
            while self.take(","):
                v.append(self.value())
            self.need(")")
        else:
            if op == "is" and self.take("not"):
                neg = not neg
            v = self.value()
            if op == "like" and self.take("escape"):
                esc = self.value()
        if par:
            self.need(")")
        if self.peek("or"):
            unsupported(self.sql)
        return col, neg, op, v, esc


def matches(conds, columns, row):
    r = True
    for col, neg, op, v, esc in conds:
        low = [c.lower() for c in columns]
        if col.lower() == "rowid":
            unsupported("rowid")
        if col.lower() not in low:
            raise sqlite3.OperationalError("no such column: " + col)
        x = row[low.index(col.lower())]
        if op in ("=", "=="):
            e = cell_eq(x, v)
        elif op == "is":
            e = (x is None and v is None) or cell_eq(x, v)
        elif op in ("!=", "<>"):
            e = False if x is None or v is None else Not(cell_eq(x, v))
        elif op == "in":
            e = values.Or(*[cell_eq(x, y) for y in v])
        elif op in ("like", "glob"):
            if has_sym((x, v)) or type(x) is not str or type(v) is not str:
                unsupported(op + " of symbolic or binary values")
            e = like(v, x, esc) if op == "like" else glob(v, x)
        else:
            x, v = [settled(y) if type(y) is Pickled else y for y in (x, v)]
            if has_sym((x, v)) or type(x) is not type(v):
                unsupported("order of symbolic values")
            e = {"<": x < v, ">": x > v, "<=": x <= v, ">=": x >= v}[op]
        r = And(r, Not(e) if neg else e)
    return r


class Cursor(core.Fake):
    def __init__(self, conn, rows=(), columns=()):
        self.connection = conn
        self.rows = iter(rows)
        self.rowcount = -1
        self.lastrowid = None
        self.description = [(c,) + (None,) * 6 for c in columns] or None

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.rows)

    def fetchone(self):
        return next(self.rows, None)

    def fetchall(self):
        return list(self.rows)

    def fetchmany(self, n=1):
        return [r for _, r in zip(range(n), self.rows)]

    def execute(self, sql, params=()):
        c = self.connection.execute(sql, params)
        self.rows, self.rowcount, self.description = c.rows, c.rowcount, c.description
        return self

    def executemany(self, sql, seq):
        self.connection.executemany(sql, seq)
        return self

    def close(self):
        pass


INHERITED = []      # uses of a connection by a process that did not open it


class Connection(core.Fake):
    inherited = False       # whether this is the copy a forked process has of its parent's connection

    def __init__(self, store, path, timeout=5.0, detect_types=0, isolation_level="", check_same_thread=True,
                 factory=None, cached_statements=128, uri=False, fault=None):
        if detect_types or uri or factory:
            unsupported("connect() with these arguments")
        self.fault = fault or (lambda what: None)
        self.store, self.path = store, path
        store.setdefault(path, Database())
        self.work = None
        self.closed = False
        self.isolation_level = isolation_level
        self.total_changes = 0
        self.row_factory = None

    @property
    def in_transaction(self):
        return self.work is not None

    def _db(self):
        if self.inherited:
            INHERITED.append(self.path)
        if self.closed:
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")
        return self.store[self.path] if self.work is None else self.work

    def commit(self):
        self._db()
        if self.work is not None:
            self.fault("commit")
            self.store[self.path] = self.work
            self.work = None

    def rollback(self):
        self._db()
        self.work = None

    def close(self):
        self.work = None
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, typ, exc, tb):
        self.rollback() if typ else self.commit()

    def cursor(self):
        return Cursor(self)

    def executemany(self, sql, seq):
        for params in list(seq):
            self.execute(sql, params)
        return Cursor(self)

    def executescript(self, text):
        self.commit()
        for part in text.split(";"):
            if part.strip():
                self.execute(part)
        return Cursor(self)

    def _open(self):
        if self.work is None and self.isolation_level is not None:
            self.work = self._db().copy()

    def execute(self, sql, params=()):
        db = self._db()
        p = Parser(sql, params)
        verb = p.need("select", "insert", "replace", "delete", "update", "create", "drop", "vacuum", "pragma", "begin", "commit",
                      "rollback", "end", "alter", "analyze")
        if verb in ("insert", "replace", "delete", "update"):
            if self.work is None:
                self.fault(verb)
            self._open()
            db = self._db()
        return getattr(self, "_" + verb)(p, db) or Cursor(self)

    def _table(self, db, name):
        for k, t in db.tables.items():
            if k.lower() == name.lower():
                return t
        raise sqlite3.OperationalError("no such table: " + name)

    def _select(self, p, db):
        if p.take("distinct"):
            unsupported(p.sql)
        cols = []
        while True:
            if p.take("*"):
                cols.append("*")
            elif p.peek("count"):
                p.i += 1
                p.need("(")
                p.need("*")
                p.need(")")
                cols.append("count")
            elif p.i < len(p.toks) and p.toks[p.i][0] == "num":
                p.i += 1
                cols.append("1")
            else:
                cols.append(p.name())
            if not p.take(","):
                break
        p.need("from")
        name = p.name()
        conds = p.where()
        order = None
        if p.take("order"):
            p.need("by")
            order = (p.name(), p.take("asc", "desc") == "desc")
        limit = None
        if p.take("limit"):
            limit = p.value()
        p.end()
        if name.lower() in ("sqlite_master", "sqlite_schema"):
            columns = ["type", "name", "tbl_name", "sql"]
            rows = [["table", t.name, t.name, t.sql] for t in db.tables.values()]
            for t in db.tables.values():
                if t.keys:
                    rows.append(["index", f"sqlite_autoindex_{t.name}_1", t.name, None])
            rows += [["index", n, t, s] for n, (t, s) in db.indexes.items()]
        else:
            t = self._table(db, name)
            columns, rows = t.columns, t.rows
        low = [c.lower() for c in columns]
        for c in cols:
            if c not in ("*", "count", "1") and c.lower() not in low:
                raise sqlite3.OperationalError("no such column: " + c)
        found = [r for r in rows if decide(matches(conds, columns, r))]
        if order:
            i = low.index(order[0].lower())
            found.sort(key=lambda r: r[i], reverse=order[1])
        if limit is not None and limit >= 0:
            found = found[:limit]
        if cols == ["count"]:
            return Cursor(self, [(len(found),)], cols)
        out = []
        for r in found:
            rec = []
            for c in cols:
                if c == "*":
                    rec += r
                elif c == "1":
                    rec.append(1)
                else:
                    rec.append(r[low.index(c.lower())])
            out.append(tuple(rec))
        return Cursor(self, out, cols)

    def _insert(self, p, db, mode=None):
        if p.take("or"):
            mode = p.need("replace", "ignore", "abort", "fail", "rollback")
        p.need("into")
        t = self._table(db, p.name())
        cols = list(t.columns)
        if p.take("("):
            cols = [p.name()]
            while p.take(","):
                cols.append(p.name())
            p.need(")")
        p.need("values")
        while True:
            p.need("(")
            vals = [p.value()]
            while p.take(","):
                vals.append(p.value())
            p.need(")")
            if len(vals) != len(cols):
                raise sqlite3.OperationalError(f"table {t.name} has {len(cols)} columns but {len(vals)} values were supplied")
            low = [c.lower() for c in cols]
            row = [vals[low.index(c.lower())] if c.lower() in low else None for c in t.columns]
            self._put(t, row, mode)
            if not p.take(","):
                break
        p.end()

    def _replace(self, p, db):
        self._insert(p, db, "replace")

    def _put(self, t, row, mode):
        for key in t.keys:
            idx = [t.columns.index(c) for c in key]
            for old in list(t.rows):
                if decide(And(*[cell_eq(old[i], row[i]) for i in idx])):
                    if mode == "replace":
                        t.rows.remove(old) if not any(has_sym(r) for r in t.rows) else \
                            t.rows.pop(next(i for i, r in enumerate(t.rows) if r is old))
                    elif mode == "ignore":
                        return
                    else:
                        raise sqlite3.IntegrityError("UNIQUE constraint failed: " + t.name)
        t.rows.append(row)
        self.total_changes += 1

    def _delete(self, p, db):
        p.need("from")
        t = self._table(db, p.name())
        conds = p.where()
        p.end()
        t.rows = [r for r in t.rows if not decide(matches(conds, t.columns, r))]

    def _update(self, p, db):
        t = self._table(db, p.name())
        p.need("set")
        sets = []
        while True:
            c = p.name()
            p.need("=")
            sets.append((c, p.value()))
            if not p.take(","):
                break
        conds = p.where()
        p.end()
        for r in t.rows:
            if decide(matches(conds, t.columns, r)):
                for c, v in sets:
                    r[t.columns.index(c)] = v

    def _create(self, p, db):
        unique = p.take("unique")
        if p.take("index"):
            there = bool(p.take("if")) and (p.need("not"), p.need("exists"))
            name = p.name()
            p.need("on")
            t = self._table(db, p.name())
            p.need("(")
            cols = [p.name()]
            while p.take(","):
                cols.append(p.name())
            p.need(")")
            p.end()
            if name in db.indexes:
                if there:
                    return
                raise sqlite3.OperationalError(f"index {name} already exists")
            db.indexes[name] = (t.name, p.sql)
            if unique:
                t.keys = t.keys + [cols]
            return
        p.need("table")
        there = bool(p.take("if")) and (p.need("not"), p.need("exists"))
        name = p.name()
        p.need("(")
        columns, keys = [], []
        while True:
            if p.take("primary"):
                p.need("key")
                p.need("(")
                key = [p.name()]
                while p.take(","):
                    key.append(p.name())
                p.need(")")
                keys.append(key)
            elif p.take("unique"):
                p.need("(")
                key = [p.name()]
                while p.take(","):
                    key.append(p.name())
                p.need(")")
                keys.append(key)
            else:
                c = p.name()
                columns.append(c)
                while not p.peek(",", ")"):
                    if p.take("primary"):
                        p.need("key")
                        keys.append([c])
                    elif p.take("unique"):
                        keys.append([c])
                    elif p.take("not"):
                        p.need("null")
                    else:
                        p.need("text", "blob", "integer", "int", "real", "null")
            if not p.take(","):
                break
        p.need(")")
        if p.take("without"):
            p.need("rowid")
        p.end()
        if any(t.lower() == name.lower() for t in db.tables):
            if there:
                return
            raise sqlite3.OperationalError(f"table {name} already exists")
        db.tables[name] = Table(name, columns, keys, p.sql)

    def _drop(self, p, db):
        what = p.need("table", "index")
        there = bool(p.take("if")) and p.need("exists")
        name = p.name()
        p.end()
        if what == "index":
            if name not in db.indexes and not there:
                raise sqlite3.OperationalError("no such index: " + name)
            db.indexes.pop(name, None)
            return
        try:
            t = self._table(db, name)
        except sqlite3.OperationalError:
            if there:
                return
            raise
        del db.tables[t.name]
        for k in [k for k, (n, _) in db.indexes.items() if n == t.name]:
            del db.indexes[k]

    def _vacuum(self, p, db):
        if self.work is not None:
            raise sqlite3.OperationalError("cannot VACUUM from within a transaction")

    def _pragma(self, p, db):
        pass

    _analyze = _pragma

    def _begin(self, p, db):
        if self.work is None:
            self.work = self._db().copy()

    def _commit(self, p, db):
        self.commit()

    _end = _commit

    def _rollback(self, p, db):
        self.work = None


setattr(Connection, "_alter", lambda self, p, db: unsupported(p.sql))


class Faulty(sqlite3.Connection):
    fault = staticmethod(lambda what: None)
    inherited = closed = False

    def close(self):
        self.closed = True
        super().close()

    def commit(self):
        if self.in_transaction:
            self.fault("commit")
        super().commit()

    def _note(self):
        if self.inherited:
            INHERITED.append("database")

    def _check(self, sql):
        verb = sql.split()[0].lower()
        if verb in ("insert", "replace", "delete", "update") and not self.in_transaction:
            self.fault(verb)

    def execute(self, sql, *a):
        self._note()
        self._check(sql)
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        self._note()
        self._check(sql)
        return super().executemany(sql, *a)


def remove(path):
    from . import world
    with world.active(None):
        shutil.rmtree(path, True)


class RealStore:
    """Databases of a native run: real files in a scratch directory."""

    def __init__(self):
        from . import world
        with world.active(None):
            self.dir = tempfile.mkdtemp(prefix="ffdb")
        self.names = {}
        weakref.finalize(self, remove, self.dir)

    def connect(self, path, fault, *a, **kw):
        from . import world
        name = self.names.setdefault(path, f"{len(self.names)}.db")
        with world.active(None):
            kw["check_same_thread"] = False
            conn = real_connect(os.path.join(self.dir, name), *a, factory=Faulty, **kw)
        conn.again = lambda: self.connect(path, fault, *a, **kw)
        if fault:
            conn.fault = fault
        return conn
