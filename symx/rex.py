"""Regular expressions over symbolic text and symbolic patterns.

The parse tree comes from the standard library's own parser (an instrumented copy when the
pattern is symbolic).  Whether a pattern matches is one formula, built over (continuation,
position) pairs; group spans are found by committing, alternative by alternative in the order a
backtracking matcher tries them, to the first one whose continuation can still succeed."""

import re
import re._compiler as _rc
import re._constants as C
import re._parser as _rp
import sys
import types

from . import models
from .core import eng, Unsupported
from .models import METHODS, MODELS, load_instrumented
from .values import (And, Ch, Not, Or, SymBytes, SymInt, SymStr, _promote, ceq, chars, cpred,
                     decide, has_sym, in_set, mkbytes, mkstr)

FLAGMASK = int(re.I | re.M | re.S | re.A | re.L | re.U | re.X)
DEBUG = int(re.DEBUG)


# ------------------------------------------------------------ char classes --
_set_cache = {}


def _class_set(op, av, flags, is_bytes, dom):
    key = (op, repr(av), flags & FLAGMASK, is_bytes, dom)
    s = _set_cache.get(key)
    if s is None:
        state = _rp.State()
        state.flags = flags
        state.str = b"" if is_bytes else ""
        sub = _rp.SubPattern(state, [(op, av)])
        f = _rc.compile(sub, flags & ~DEBUG).fullmatch
        if is_bytes:
            s = frozenset(cp for cp in dom if f(bytes((cp,))))
        else:
            s = frozenset(cp for cp in dom if f(chr(cp)))
        _set_cache[key] = s
    return s


def _av_sym(av):
    if type(av) is SymInt:
        return True
    if isinstance(av, (list, tuple)):
        return any(_av_sym(x) for x in av)
    return False


def _lit_ch(v):
    return Ch(v.e, v.dom if v.dom is not None else models.CHR_DOM)


def char_cond(c, op, av, flags, is_bytes):
    """Condition that the char node (op, av) accepts char `c`."""
    if not _av_sym(av):
        dom = frozenset((c,)) if isinstance(c, int) else c.dom
        return in_set(c, _class_set(op, av, flags, is_bytes, dom))
    if op is C.LITERAL or op is C.NOT_LITERAL:
        lit = _lit_ch(av)
        if not flags & 2:
            r = ceq(c, lit)
        else:
            dom = frozenset((c,)) if isinstance(c, int) else c.dom
            r = Or(*[And(ceq(lit, v), in_set(c, _class_set(C.LITERAL, v, flags, is_bytes, dom)))
                     for v in sorted(lit.dom)])
        return Not(r) if op is C.NOT_LITERAL else r
    if op is C.IN:
        if flags & 2:
            raise Unsupported("case-insensitive symbolic character class")
        neg = False
        alts = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                alts.append(char_cond(c, o, a, flags, is_bytes))
            elif o is C.RANGE:
                lo, hi = a
                x = c if isinstance(c, int) else c.e
                lo = lo.e if type(lo) is SymInt else lo
                hi = hi.e if type(hi) is SymInt else hi
                alts.append(And(x >= lo, x <= hi))
            else:
                alts.append(char_cond(c, C.IN, [(o, a)], flags, is_bytes))
        r = Or(*alts)
        return Not(r) if neg else r
    raise Unsupported(f"symbolic {op}")


# ------------------------------------------------------------- continuation --
class Node:
    """One element of a pattern; `kind` is char/at/group/branch/rep/open/close/look."""
    __slots__ = ("kind", "a", "flags")

    def __init__(self, kind, a, flags=0):
        self.kind = kind
        self.a = a
        self.flags = flags


class K:
    __slots__ = ("node", "next")

    def __init__(self, node, nxt):
        self.node = node
        self.next = nxt


ACCEPT = K(Node("accept", None), None)
END = K(Node("end", None), None)


def translate(sub, flags):
    out = []
    for op, av in sub:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            out.append(Node("char", (op, av), flags))
        elif op is C.AT:
            out.append(Node("at", av, flags))
        elif op is C.SUBPATTERN:
            group, add, dele, p = av
            inner = translate(p, (flags | add) & ~dele)
            if group is None:
                out.extend(inner)
            else:
                out.append(Node("open", group))
                out.extend(inner)
                out.append(Node("close", group))
        elif op is C.BRANCH:
            out.append(Node("branch", [translate(p, flags) for p in av[1]]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            body = translate(p, flags)
            single = len(body) == 1 and body[0].kind == "char"
            out.append(Node("rep", (lo, None if hi is C.MAXREPEAT else hi, body,
                                    op is C.MAX_REPEAT, single)))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            width = 0
            if direction < 0:
                width, most = p.getwidth()
                if width != most:
                    raise Unsupported("look-behind of variable width")
            out.append(Node("look", (translate(p, flags), op is C.ASSERT, width)))
        elif op is C.FAILURE:
            out.append(Node("fail", None))
        elif op is C.POSSESSIVE_REPEAT or op is C.ATOMIC_GROUP:
            raise Unsupported("atomic group")
        else:
            raise Unsupported(f"regex {op}")
    return out


class Run:
    """Matching of one program against one subject."""

    def __init__(self, prog, cs, is_bytes):
        self.prog = prog
        self.cs = cs
        self.n = len(cs)
        self.is_bytes = is_bytes
        self.memo = {}
        self.conses = {}
        self.reps = {}
        self.keep = []

    def cons(self, node, nxt):
        key = (id(node), id(nxt))
        k = self.conses.get(key)
        if k is None:
            k = self.conses[key] = K(node, nxt)
        return k

    def push(self, nodes, nxt):
        for node in reversed(nodes):
            nxt = self.cons(node, nxt)
        return nxt

    def rep(self, node, lo, hi):
        key = (id(node), lo, hi)
        r = self.reps.get(key)
        if r is None:
            _, _, body, greedy, single = node.a
            r = self.reps[key] = Node("rep", (lo, hi, body, greedy, single))
            self.keep.append(node)
        return r

    def check(self, rep, pos):
        key = (id(rep), "chk", pos)
        r = self.reps.get(key)
        if r is None:
            r = self.reps[key] = Node("chk", (rep, pos))
        return r

    def at(self, av, flags, pos):
        n = self.n
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_BEGINNING:
            if flags & 8 and pos > 0:
                return ceq(self.cs[pos - 1], 10)
            return pos == 0
        if av is C.AT_END_STRING:
            return pos == n
        if av is C.AT_END:
            if pos == n:
                return True
            if flags & 8 or pos == n - 1:
                return ceq(self.cs[pos], 10)
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            def word(i):
                if not 0 <= i < n:
                    return False
                return char_cond(self.cs[i], C.IN, [(C.CATEGORY, C.CATEGORY_WORD)], flags,
                                 self.is_bytes)
            a, b = word(pos - 1), word(pos)
            diff = Or(And(a, Not(b)), And(Not(a), b))
            return diff if av is C.AT_BOUNDARY else Not(diff)
        raise Unsupported(f"regex {av}")

    def char(self, node, pos):
        if pos >= self.n:
            return False
        key = (id(node), "c", pos)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._char(node, pos)
        return r

    def _char(self, node, pos):
        op, av = node.a
        if op is C.ANY:
            if node.flags & 16:
                return True
            return Not(ceq(self.cs[pos], 10))
        return char_cond(self.cs[pos], op, av, node.flags, self.is_bytes)

    def alternatives(self, k, pos):
        """Prioritised alternatives [(condition, next continuation, next position, event)]."""
        node, nxt = k.node, k.next
        kind = node.kind
        if kind == "char":
            return [(self.char(node, pos), nxt, pos + 1, None)]
        if kind == "at":
            return [(self.at(node.a, node.flags, pos), nxt, pos, None)]
        if kind == "open" or kind == "close":
            return [(True, nxt, pos, (kind, node.a))]
        if kind == "branch":
            return [(True, self.push(alt, nxt), pos, None) for alt in node.a]
        if kind == "look":
            body, positive, width = node.a
            e = pos >= width and self.exists(self.push(body, ACCEPT), pos - width)
            return [(e if positive else Not(e), nxt, pos, None)]
        if kind == "fail":
            return []
        if kind == "chk":
            rep, start = node.a
            if pos == start:
                return []
            return [(True, self.cons(rep, nxt), pos, None)]
        if kind == "rep":
            lo, hi, body, greedy, single = node.a
            if hi == 0:
                return [(True, nxt, pos, None)]
            again = self.rep(node, max(lo - 1, 0), None if hi is None else hi - 1)
            if lo > 0:
                return [(True, self.push(body, self.cons(again, nxt)), pos, None)]
            if single:
                more = (True, self.push(body, self.cons(again, nxt)), pos, None)
            else:
                more = (True, self.push(body, self.cons(self.check(again, pos), nxt)), pos, None)
            stop = (True, nxt, pos, None)
            return [more, stop] if greedy else [stop, more]
        raise Unsupported(kind)

    def exists(self, k, pos):
        """Formula: the continuation matches from `pos`."""
        if k is ACCEPT:
            return True
        if k is END:
            return pos == self.n
        if pos > self.n:
            return False
        key = (id(k), pos)
        r = self.memo.get(key)
        if r is None:
            alts = []
            for cond, nk, npos, _ in self.alternatives(k, pos):
                if cond is False:
                    continue
                alts.append(And(cond, self.exists(nk, npos)))
                if alts[-1] is True:
                    break
            r = Or(*alts)
            self.memo[key] = r
        return r

    def commit(self, k, pos, ngroups):
        """Spans of the match that a backtracking matcher finds from `pos` (known to exist)."""
        spans = [(-1, -1)] * (ngroups + 1)
        opened = {}
        last = None
        start = pos
        while k is not ACCEPT and k is not END:
            for cond, nk, npos, event in self.alternatives(k, pos):
                if cond is False:
                    continue
                if decide(And(cond, self.exists(nk, npos))):
                    if event is not None:
                        what, g = event
                        if what == "open":
                            opened[g] = pos
                        else:
                            spans[g] = (opened[g], pos)
                            last = g
                    k, pos = nk, npos
                    break
            else:
                raise Unsupported("regex commit")
        spans[0] = (start, pos)
        return spans, last


# ------------------------------------------------------------ match objects --
class SymMatch:
    __class__ = property(lambda self: re.Match)

    def __init__(self, rx, string, run, starts, k, pos, endpos):
        self.re = rx
        self.string = string
        self._run = run
        self._starts = starts
        self._k = k
        self.pos = pos
        self.endpos = endpos
        self._spans = None

    def _resolve(self):
        if self._spans is None:
            for s in self._starts[:-1]:
                if decide(self._run.exists(self._k, s)):
                    break
            else:
                s = self._starts[-1]
            self._spans, self._last = self._run.commit(self._k, s, self.re.groups)
        return self._spans

    def __bool__(self):
        return True

    def _idx(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, i, default=None):
        a, b = self._resolve()[i]
        return default if a < 0 else _cut(self.string, a, b)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        if len(gs) == 1:
            return self._get(self._idx(gs[0]))
        return tuple(self._get(self._idx(g)) for g in gs)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._resolve()[self._idx(g)]

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        self._resolve()
        return self._last

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, j in self.re.groupindex.items():
            if i == j:
                return n
        return None

    def expand(self, template):
        return _expand(template, self)


def _cut(s, a, b):
    return s[a:b]


_EXPAND = re.compile(r"\\(?:g<(\w+)>|(\d{1,2})|(.))", re.S)


def _expand(template, m):
    is_bytes = isinstance(template, bytes)
    if has_sym(template):
        if decide(_promote(template)._contains((92,))):
            raise Unsupported("escape in a symbolic replacement")
        return template
    t = template.decode("latin-1") if is_bytes else template
    out = []
    pos = 0
    for x in _EXPAND.finditer(t):
        out.extend(map(ord, t[pos:x.start()]))
        pos = x.end()
        if x[1] is not None or x[2] is not None:
            g = x[1] or x[2]
            v = m.group(int(g) if g.isdigit() else g)
            out.extend(chars(v) if v is not None else ())
        else:
            esc = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(x[3])
            if esc is None:
                raise Unsupported("replacement escape")
            out.append(ord(esc))
    out.extend(map(ord, t[pos:]))
    return mkbytes(out) if is_bytes else mkstr(out)


class SymPattern:
    """A pattern; used for symbolic patterns and, internally, for concrete ones on symbolic
    subjects."""
    __class__ = property(lambda self: re.Pattern)

    def __init__(self, pattern, tree, flags):
        self.pattern = pattern
        self.flags = flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.prog = translate(tree, flags)
        self.is_bytes = isinstance(pattern, bytes)

    def _run(self, string, endpos=None):
        if isinstance(string, str) is self.is_bytes or not isinstance(string, (str, bytes)):
            if self.is_bytes:
                raise TypeError("cannot use a bytes pattern on a string-like object")
            raise TypeError("cannot use a string pattern on a bytes-like object")
        cs = list(chars(string))
        if endpos is not None and endpos < len(cs):
            cs = cs[:endpos]
        return Run(self.prog, cs, self.is_bytes)

    def _go(self, string, pos, endpos, full, anchored, run=None, notempty=None):
        run = run or self._run(string, endpos)
        k = run.push(self.prog, END if full else ACCEPT)
        starts = [pos] if anchored else list(range(pos, run.n + 1))
        cond = [run.exists(k, s) for s in starts]
        live = [(s, c) for s, c in zip(starts, cond) if c is not False]
        if not live or not decide(Or(*[c for _, c in live])):
            return None
        return SymMatch(self, string, run, [s for s, _ in live], k, pos, run.n)

    def match(self, string, pos=0, endpos=None):
        return self._go(string, pos, endpos, False, True)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._go(string, pos, endpos, True, True)

    def search(self, string, pos=0, endpos=None):
        return self._go(string, pos, endpos, False, False)

    def finditer(self, string, pos=0, endpos=None):
        run = self._run(string, endpos)
        prev_empty_at = None
        while pos <= run.n:
            m = self._scan(run, string, pos, prev_empty_at)
            if m is None:
                return
            yield m
            a, b = m.span()
            # after an empty match the next one may start here but must not be empty
            prev_empty_at = b if a == b else None
            pos = b

    def _scan(self, run, string, pos, must_advance):
        k = run.push(self.prog, ACCEPT)
        for s in range(pos, run.n + 1):
            if s == must_advance:
                # a match at s must be non-empty
                kk = run.push(self.prog, run.cons(_nonempty(run, s), ACCEPT))
            else:
                kk = k
            e = run.exists(kk, s)
            if e is False:
                continue
            if decide(e):
                return SymMatch(self, string, run, [s], kk, pos, run.n)
        return None

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups(_empty(string))[0])
            else:
                out.append(m.groups(_empty(string)))
        return out

    def split(self, string, maxsplit=0):
        out = []
        pos = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(_cut(string, pos, a))
            out.extend(m.groups())
            pos = b
            n += 1
        out.append(_cut(string, pos, len(string)))
        return out

    def subn(self, repl, string, count=0):
        out = []
        pos = 0
        n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(chars(_cut(string, pos, a)))
            r = repl(m) if callable(repl) else _expand(repl, m)
            out.extend(chars(r))
            pos = b
            n += 1
        out.extend(chars(_cut(string, pos, len(string))))
        return (mkbytes if self.is_bytes else mkstr)(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def __eq__(self, other):
        if isinstance(other, re.Pattern):
            return self.pattern == other.pattern
        return NotImplemented

    def __hash__(self):
        return 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _nonempty(run, s):
    key = ("nonempty", s)
    r = run.reps.get(key)
    if r is None:
        r = run.reps[key] = Node("chk0", s)
    return r


_orig_alts = Run.alternatives


def _alts(self, k, pos):
    if k.node.kind == "chk0":
        return [] if pos == k.node.a else [(True, k.next, pos, None)]
    return _orig_alts(self, k, pos)


Run.alternatives = _alts


def _empty(s):
    return b"" if isinstance(s, bytes) else ""


_trees = {}
_sxparser = None


def lift(rx):
    """SymPattern of a concrete compiled pattern."""
    key = (rx.pattern, rx.flags)
    p = _trees.get(key)
    if p is None:
        p = _trees[key] = SymPattern(rx.pattern, _rp.parse(rx.pattern, rx.flags & ~DEBUG),
                                     rx.flags)
    return p


def sym_compile(pattern, flags=0):
    flags = int(flags)
    try:
        tree = _sxparser.parse(pattern, flags)
    except re.error:
        raise
    except IndexError:
        raise
    return SymPattern(pattern, tree, tree.state.flags)


def compile_any(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern
    if has_sym(pattern):
        return sym_compile(pattern, flags)
    return re.compile(pattern, flags)


def _bound(name, subject_index):
    def f(self, real, *args, **kw):
        if "string" in kw:
            s = kw["string"]
        else:
            s = args[subject_index]
        if has_sym(s) or (name in ("sub", "subn")):
            if has_sym(s) or (not callable(args[0]) and has_sym(args[0])):
                return getattr(lift(self), name)(*args, **kw)
            if callable(args[0]):
                return _with_callback(self, name, *args, **kw)
        return real(*args, **kw)
    return f


def _with_callback(rx, name, repl, string, count=0):
    """Substitution in concrete text with a callback that may return symbolic text."""
    out = []
    pos = n = 0
    for m in rx.finditer(string):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(chars(string[pos:a]))
        out.extend(chars(repl(m)))
        pos = b
        n += 1
    out.extend(chars(string[pos:]))
    r = (mkbytes if isinstance(string, bytes) else mkstr)(out)
    return r if name == "sub" else (r, n)


def _escape(pattern):
    if not has_sym(pattern):
        return re.escape(pattern)
    special = frozenset(re._special_chars_map)
    out = []
    for c in pattern.c:
        if isinstance(c, int):
            if c in special:
                out.append(92)
            out.append(c)
        elif decide(in_set(c, special)):
            out.extend((92, narrow(c, special)))
        else:
            out.append(narrow(c, c.dom - special))
    return type(pattern)._mk(out)


def narrow(c, members):
    dom = c.dom & members
    if len(dom) == 1:
        return next(iter(dom))
    return Ch(c.e, dom) if dom != c.dom else c


def setup():
    global _sxparser
    _sxparser = load_instrumented("sx_re_parser", _rp.__file__, [
        ("from ._constants import *", "from re._constants import *"),
        ("def _uniq(items):\n    return list(dict.fromkeys(items))",
         "def _uniq(items):\n    return list(items)"),
    ])
    for name, idx in (("match", 0), ("search", 0), ("fullmatch", 0), ("findall", 0),
                      ("finditer", 0), ("split", 0), ("sub", 1), ("subn", 1)):
        METHODS[(re.Pattern, name)] = _bound(name, idx)

    MODELS[re.compile] = compile_any
    MODELS[re.escape] = _escape

    def toplevel(name):
        real = getattr(re, name)
        idx = 1 if name not in ("sub", "subn") else 2

        def f(pattern, *args, **kw):
            everything = (pattern,) + args + tuple(kw.values())
            if not has_sym(everything) and not (name in ("sub", "subn") and callable(args[0])):
                return real(pattern, *args, **kw)
            flags = kw.pop("flags", 0)
            args = list(args)
            # positional flags come last: match(p, s, flags), split(p, s, maxsplit, flags)
            nmax = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1,
                    "split": 2, "sub": 3, "subn": 3}[name]
            if len(args) > nmax:
                flags = args.pop()
            rx = compile_any(pattern, flags)
            if name in ("sub", "subn") and type(rx) is not SymPattern and not has_sym(args) and not has_sym(tuple(kw.values())):
                return _with_callback(rx, name, *args, **kw)
            if type(rx) is not SymPattern:
                rx = lift(rx)
            return getattr(rx, name)(*args, **kw)
        MODELS[real] = f

    for name in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "subn"):
        toplevel(name)
