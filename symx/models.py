"""What instrumented code calls instead of builtins and C functions when symbolic values are
involved.  Every model is an exact re-implementation; tests in selftest.py compare each with the
real function on concrete arguments."""

import builtins
import collections
import copy as _copy
import functools
import io
import json
import pickle
import operator
import os
import posixpath
import re
import stat
import sys
import textwrap
import time
import types

import z3

from . import core, instr, sql
from .core import eng, Unsupported
from .values import (SYM, SYMSEQ, And, Ch, Not, Or, SymBits, SymBool, SymBytes, SymInt, SymReal,
                     SymStr, _promote, ceq, chars, cpred, decide, has_sym, in_set, is_sym, mkbits,
                     mkbool, mkbytes, mkint, mkstr, sx_not, toint, zb, ze)

MODELS = {}


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


FT = types.FunctionType
BT = types.BuiltinFunctionType
BM = type(re.compile('').match)
MD = types.MethodDescriptorType


def sx_call(f, *args, **kw):
    t = type(f)
    if t is FT or t is type or t is functools._lru_cache_wrapper:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if t is BT or t is BM:
        self = f.__self__
        if self is None or type(self) is types.ModuleType:
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kw)
            return f(*args, **kw)
        if type(self) is type:
            m = MODELS.get((self, f.__name__))
            if m is not None:
                return m(*args, **kw)
            return f(*args, **kw)
        m = METHODS.get((type(self), f.__name__))
        if m is None:
            if isinstance(self, (str, bytes)):
                if has_sym(args) or kw and has_sym(kw):
                    return getattr(_promote(self), f.__name__)(*args, **kw)
            elif isinstance(self, dict) and f.__name__ in DICT_METHODS and args and \
                    has_sym(args[0]):
                return DICT_METHODS[f.__name__](self, *args, **kw)
            return f(*args, **kw)
        return m(self, f, *args, **kw)
    if t is MD:
        # unbound method of a builtin type, e.g. str.lower
        if args and type(args[0]) in SYM:
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if has_sym(args) and isinstance(args[0], (str, bytes)):
            return getattr(_promote(args[0]), f.__name__)(*args[1:], **kw)
        return f(*args, **kw)
    return f(*args, **kw)


# -------------------------------------------------------------- operators --
def sym_eq(a, b):
    """z3/Python bool for a == b without forking where possible."""
    r = a == b
    if type(r) is SymBool:
        return r.e
    return bool(r)


def contains(container, item):
    """z3/Python bool for `item in container`."""
    t = type(container)
    if t in SYMSEQ:
        if t is SymBytes and isinstance(item, int):
            return Or(*[sym_eq(x, item) for x in container])
        return container._contains(container._chk(item))
    if type(item) in SYMSEQ and isinstance(container, (str, bytes)):
        p = _promote(container)
        return p._contains(p._chk(item))
    if has_sym(item):
        if isinstance(container, (list, tuple, set, frozenset, dict, type({}.keys()),
                                  type({}.values()))):
            return Or(*[sym_eq(x, item) for x in list(container)])
        if isinstance(container, range) and type(item) is SymInt and container.step == 1:
            return zb(And(zb(item >= container.start), zb(item < container.stop)))
    return item in container


def sx_in(a, b):
    return mkbool(contains(b, a))


def sx_notin(a, b):
    return mkbool(Not(contains(b, a)))


def sx_is(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if a is b:
            return True
        if type(a) is SymBool and type(b) in (bool, SymBool) or type(a) is bool:
            return a == b
        return False
    if type(a) in SYMSEQ and type(b) in SYMSEQ and a.c == b.c:
        return True
    return a is b


def sx_isnot(a, b):
    return sx_not(sx_is(a, b))


def sx_getitem(o, k):
    if isinstance(o, dict) and has_sym(k):
        for key in list(o):
            if decide(sym_eq(key, k)):
                return o[key]
        if hasattr(type(o), "__missing__"):
            return type(o).__missing__(o, k)
        raise KeyError(k)
    if isinstance(o, (str, bytes)) and isinstance(k, slice) and has_sym((k.start, k.stop)):
        return o[slice(*(x.__index__() if is_sym(x) else x for x in (k.start, k.stop, k.step)))]
    return o[k]


def sx_setitem(v, o, k):
    if isinstance(o, dict) and has_sym(k):
        for key in list(o):
            if decide(sym_eq(key, k)):
                o[key] = v
                return
    o[k] = v


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
        "BitAnd": operator.iand, "BitXor": operator.ixor, "FloorDiv": operator.ifloordiv,
        "Mod": operator.imod, "Div": operator.itruediv, "LShift": operator.ilshift,
        "RShift": operator.irshift, "Pow": operator.ipow}


def sx_augitem(o, k, op, v):
    sx_setitem(_AUG[op](sx_getitem(o, k), v), o, k)


def sx_str(*args, **kw):
    if len(args) != 1 or kw:
        if args and type(args[0]) is SymBytes:
            return args[0].decode(*args[1:], **kw)
        return str(*args, **kw)
    x = args[0]
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt or t is SymBits:
        return int_to_str(x, 10)
    if t is SymBool:
        return "True" if x else "False"
    if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__,
                                                            Exception.__str__):
        if len(x.args) == 1 and has_sym(x.args[0]):
            return sx_str(x.args[0])
    if not is_sym(x) and isinstance(x, BaseException) is False:
        f = type(x).__str__
        if type(f) is FT:
            return f(x)
    if t in (list, tuple, dict, set, frozenset) and has_sym(x):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        # escapes are not modelled: repr only ever occurs inside messages
        return "'" + x + "'"
    if t is SymBytes:
        return "b'" + x.decode("latin-1") + "'"
    if t in (SymInt, SymBits, SymBool):
        return sx_str(x)
    if t in (list, tuple) and has_sym(x):
        inner = _join(", ", [sx_repr(y) for y in x])
        return "[" + inner + "]" if t is list else "(" + inner + ")"
    if t in (dict, set, frozenset) and has_sym(x):
        return "<symbolic>"
    f = type(x).__repr__
    if type(f) is FT:
        return f(x)
    return repr(x)


def _join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(chars(sep))
        out.extend(chars(p))
    return mkstr(out)


def int_to_str(x, base, upper=False):
    """Digits of a symbolic integer: forks on sign and length, digits stay symbolic."""
    if type(x) is SymBits:
        if base in (8, 16) and x.neg is False:
            return bits_to_str(x, base)
        x = toint(x)
    if type(x) is int:
        return format(x, {10: "d", 8: "o", 16: "x"}[base])
    e = x.e
    neg = eng().branch(e < 0)
    if neg:
        e = -e
    n = 1
    while not eng().branch(e < base ** n):
        n += 1
        if n > 40:
            raise Unsupported("unbounded integer to text")
    out = []
    if n >= 4:
        # the only digits that add up to the number; easier to reason about than quotients
        eng().fresh += 1
        ds = [z3.Int(f"digit{eng().fresh}.{i}") for i in range(n)]
        eng().assume(z3.And(*[z3.And(d >= 0, d < base) for d in ds], e == sum(d * base ** i for i, d in enumerate(ds))))
    for i in range(n - 1, -1, -1):
        if n >= 4:
            d = ds[i]
        else:
            d = e / (base ** i) if i else e
            if i < n - 1:
                d = d % base
        if base == 16:
            ch = z3.If(d < 10, d + 48, d + 87)
            dom = frozenset(b"0123456789abcdef")
        else:
            ch = d + 48
            dom = frozenset(range(48, 48 + base))
        if i == n - 1 and n > 1:
            dom = dom - {48}
        out.append(Ch(ch, dom))
    return mkstr(([45] if neg else []) + out)


def bits_to_str(x, base):
    k = 3 if base == 8 else 4
    bits = list(x.b) + [False] * (-len(x.b) % k)
    groups = [bits[i:i + k] for i in range(0, len(bits), k)][::-1]
    while len(groups) > 1 and not decide(Or(*groups[0])):
        groups.pop(0)
    out = []
    for g in groups:
        d = mkbits(g)
        d = d if isinstance(d, int) and type(d) is not SymBits else toint(d).e
        if isinstance(d, int):
            out.append(ord(format(d, "x")))
        elif base == 8:
            out.append(Ch(d + 48, frozenset(b"01234567")))
        else:
            out.append(Ch(z3.If(d < 10, d + 48, d + 87), frozenset(b"0123456789abcdef")))
    return mkstr(out)


_spec_re = re.compile(r"^(?:(.)?([<>=^]))?([+ -])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$")


def sx_fmt(value, conv, spec):
    if conv == 114:
        value = sx_repr(value)
    elif conv == 115:
        value = sx_str(value)
    elif conv == 97:
        value = ascii(value)
    if type(spec) is SymStr:
        spec = spec.concrete()
    t = type(value)
    if t not in SYM:
        if spec == "":
            return sx_str(value)
        return format(value, spec)
    if spec == "":
        return sx_str(value)
    m = _spec_re.match(spec)
    if t is SymReal and m is not None and m.group(9) == "f" and not any(m.group(i) for i in (3, 4, 5, 6, 7)):
        n = 6 if m.group(8) is None else int(m.group(8))
        k = value.scaled(n, True)
        if decide(zb(value < 0)):
            raise Unsupported("text of a negative real")
        text = int_to_str(k, 10)
        if n:
            text = "0" * (n + 1 - len(text)) + text
            text = text[:-n] + "." + text[-n:]
        return text
    if m is None or m.group(3) or m.group(4) or m.group(7) or m.group(8):
        return format(value, spec)
    fill, align, _, _, zero, width, _, _, typ = m.groups()
    if t is SymStr:
        text = value
        align = align or "<"
    elif t in (SymInt, SymBits) and typ in (None, "d", "o", "x"):
        text = int_to_str(value, {"o": 8, "x": 16}.get(typ, 10))
        if zero and not align:
            if width and decide(zb(toint(value) < 0)):
                return format(value, spec)
            fill, align = "0", ">"
        align = align or ">"
    else:
        return format(value, spec)
    pad = max(0, int(width or 0) - len(text))
    fill = fill or " "
    if align == "<":
        return text + fill * pad
    if align == ">":
        return fill * pad + text
    if align == "^":
        return fill * (pad // 2) + text + fill * (pad - pad // 2)
    return format(value, spec)


def sx_fstr(*parts):
    return _join("", parts)


def sx_deco(d):
    if d is functools.lru_cache or d is functools.cache:
        return lambda f: SxCache(f)
    if d is functools.cached_property:
        return d
    return d


class SxCache:
    """functools.lru_cache without hashing its (possibly symbolic) arguments."""
    instances = []

    def __init__(self, f, maxsize=128):
        self.f = f
        self.maxsize = maxsize
        self.items = []
        functools.update_wrapper(self, f)
        SxCache.instances.append(self)

    def __call__(self, *args, **kw):
        key = (args, tuple(sorted(kw.items())))
        for i, (k, v) in enumerate(self.items):
            if self._same(k, key):
                self.items.append(self.items.pop(i))
                return v
        v = self.f(*args, **kw)
        self.items.append((key, v))
        if self.maxsize is not None and len(self.items) > self.maxsize:
            self.items.pop(0)
        return v

    @staticmethod
    def _same(a, b):
        if len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
            return False
        conds = []
        for x, y in zip(a[0] + tuple(v for _, v in a[1]), b[0] + tuple(v for _, v in b[1])):
            if x is y:
                continue
            c = sym_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return decide(And(*conds))

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def cache_clear(self):
        self.items.clear()

    def cache_info(self):
        raise Unsupported("cache_info")


@model(collections.namedtuple)
def m_namedtuple(*args, **kw):
    kw.setdefault("module", sys._getframe(2).f_globals.get("__name__", "__main__"))
    return collections.namedtuple(*args, **kw)


@model(functools.lru_cache, functools.cache)
def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SxCache(maxsize)
    return lambda f: SxCache(f, maxsize)


# ---------------------------------------------------------------- builtins --
_TYPES = {SymStr: str, SymBytes: bytes, SymInt: int, SymBits: int, SymBool: bool, SymReal: float}


@model(type)
def m_type(*args, **kw):
    if len(args) == 1 and type(args[0]) in SYM:
        return _TYPES[type(args[0])]
    return type(*args, **kw)


MODELS[str] = sx_str
MODELS[repr] = sx_repr


@model(ord)
def m_ord(x):
    if type(x) is SymStr and len(x) == 1:
        return SymInt(x.c[0].e, x.c[0].dom)
    if type(x) is SymBytes and len(x) == 1:
        return SymInt(x.c[0].e, x.c[0].dom)
    return ord(x)


CHR_DOM = frozenset(range(0, 256))


@model(chr)
def m_chr(x):
    if type(x) is SymInt:
        ok = z3.And(x.e >= 0, x.e < 256)
        if not eng().branch(ok):
            return chr(x.__index__())
        return mkstr((Ch(x.e, x.dom or CHR_DOM),))
    return chr(x)


@model(bool)
def m_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return mkbool(a[0].e != 0)
    if a and type(a[0]) is SymBits:
        return mkbool(Or(*a[0].b, a[0].neg))
    return bool(*a)


DIGIT = [frozenset(cp for cp in range(0x3000) if chr(cp).isdecimal() and int(chr(cp)) == d)
         for d in range(10)]
DECIMAL = frozenset().union(*DIGIT)


def digit_value(c, base=10):
    """z3 Int / int value of a char known to be a digit."""
    if isinstance(c, int):
        return int(chr(c), base)
    if c.dom <= frozenset(range(48, 58)):
        return c.e - 48
    e = None
    groups = {}
    for cp in c.dom:
        try:
            groups.setdefault(cp - int(chr(cp), base), set()).add(cp)
        except ValueError:
            pass
    items = sorted(groups.items(), key=lambda t: -len(t[1]))
    e = c.e - items[0][0]
    for off, members in items[1:]:
        e = z3.If(zor(in_set(c, frozenset(members))), c.e - off, e)
    return e


def zor(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def isdig(c, base=10):
    return cpred(c, ("dig", base), lambda x: _isdig(x, base))


def _isdig(x, base):
    if x == "_" or x.isspace():
        return False
    try:
        int(x, base)
        return True
    except ValueError:
        return False


class BadInt(Exception):
    pass


def parse_int_chars(cs, base=10):
    """(sign, digits) for the chars of an int literal; raises BadInt."""
    cs = list(cs)
    from .values import WS
    while cs and decide(in_set(cs[0], WS)):
        cs.pop(0)
    while cs and decide(in_set(cs[-1], WS)):
        cs.pop()
    sign = 1
    if cs and decide(in_set(cs[0], frozenset((43, 45)))):
        if decide(ceq(cs[0], 45)):
            sign = -1
        cs.pop(0)
    if not cs:
        raise BadInt
    digits = []
    # Fast path: all digits.
    if decide(And(*[isdig(c, base) for c in cs])):
        return sign, cs
    prev_us = True
    for c in cs:
        if decide(ceq(c, 95)):
            if prev_us:
                raise BadInt
            prev_us = True
        elif decide(isdig(c, base)):
            digits.append(c)
            prev_us = False
        else:
            raise BadInt
    if prev_us:
        raise BadInt
    return sign, digits


@model(int)
def m_int(*args, **kw):
    if not args or not has_sym(args):
        return int(*args, **kw)
    x = args[0]
    t = type(x)
    if t is SymInt or t is SymBits:
        return x
    if t is SymBool:
        return toint(x)
    if t is SymReal:
        return x.trunc()
    base = args[1] if len(args) > 1 else kw.get("base", 10)
    if t is SymBytes:
        x = x.decode("latin-1")
    if type(base) is not int or base not in (8, 10, 16):
        return int(x.concrete(), base)
    try:
        cs = x.c
        if base in (8, 16) and len(cs) > 1:
            pre = frozenset((ord("o"), ord("O"))) if base == 8 else \
                frozenset((ord("x"), ord("X")))
            if decide(Or(*[in_set(c, pre) for c in cs])):
                return int(x.concrete(), base)
        sign, digits = parse_int_chars(cs, base)
    except BadInt:
        raise ValueError("invalid literal for int() with base %d" % base) from None
    if base in (8, 16) and sign == 1:
        w = 3 if base == 8 else 4
        bits = []
        for d in reversed(digits):
            for j in range(w):
                bits.append(cpred(d, ("bit", base, j),
                                  lambda x, j=j: _isdig(x, base) and int(x, base) >> j & 1))
        return mkbits(bits)
    total = 0
    for d in digits:
        total = total * base + digit_value(d, base)
    return mkint(sign * total)


def parse_decimal(cs):
    """Exact rational value of a float/Decimal literal without inf/nan; raises BadInt.  Exponents
    and underscores are handled by concretising."""
    from .values import WS
    cs = list(cs)
    while cs and decide(in_set(cs[0], WS)):
        cs.pop(0)
    while cs and decide(in_set(cs[-1], WS)):
        cs.pop()
    special = frozenset(map(ord, "eE_iInN"))
    if decide(Or(*[in_set(c, special) for c in cs])):
        return None
    sign = 1
    if cs and decide(in_set(cs[0], frozenset((43, 45)))):
        if decide(ceq(cs[0], 45)):
            sign = -1
        cs.pop(0)
    digits = []
    frac = None
    for c in cs:
        if decide(isdig(c)):
            digits.append(digit_value(c))
            if frac is not None:
                frac += 1
        elif frac is None and decide(ceq(c, 46)):
            frac = 0
        else:
            raise BadInt
    if not digits:
        raise BadInt
    total = 0
    for d in digits:
        total = total * 10 + d
    return sign * total, 10 ** (frac or 0)


def _dyadic(cs):
    """Is this a literal of moderate size whose fraction is concrete and exact in binary?"""
    if 46 not in [c for c in cs if isinstance(c, int)] or len(cs) > 15:
        return False
    i = cs.index(46) if isinstance(cs, list) else list(cs).index(46)
    frac = list(cs)[i + 1:]
    if not all(isinstance(c, int) and 48 <= c < 58 for c in frac):
        return False
    den = fractions.Fraction("0." + "".join(map(chr, frac)) + "0").denominator
    return den & (den - 1) == 0 and den <= 1024


def m_decimal_like(ctor, err, exact):
    def f(*args, **kw):
        if len(args) != 1 or kw or not has_sym(args):
            return ctor(*args, **kw)
        x = args[0]
        t = type(x)
        if t is SymStr:
            try:
                v = parse_decimal(x.c)
            except BadInt:
                raise err from None
            if v is None:
                return ctor(x.concrete())
            num, den = v
            if isinstance(num, int):
                return ctor(x.concrete())
            if not exact and den != 1 and not _dyadic(x.c):
                # Binary floating point is not exact for decimal fractions.
                return ctor(x.concrete())
            return SymReal(z3.ToReal(num) / den if den != 1 else z3.ToReal(num))
        if t in (SymInt, SymBits, SymBool):
            return SymReal(z3.ToReal(ze(x)))
        if t is SymReal:
            return x
        return ctor(*args, **kw)
    return f


import decimal      # noqa: E402
import fractions    # noqa: E402

MODELS[float] = m_decimal_like(float, ValueError("could not convert string to float"), False)
MODELS[decimal.Decimal] = m_decimal_like(decimal.Decimal, decimal.InvalidOperation(), True)


class _FracErr(ValueError):
    pass


_frac = m_decimal_like(fractions.Fraction, ValueError("Invalid literal for Fraction"), True)


@model(fractions.Fraction)
def m_fraction(*args, **kw):
    return _frac(*args, **kw)


@model(print)
def m_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        file = sys.stdout
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    text = _join(sep, [sx_str(a) for a in args]) + end
    file.write(text)
    if flush:
        file.flush()


@model(textwrap.fill)
def m_fill(text, *a, **k):
    return text if has_sym(text) else textwrap.fill(text, *a, **k)


@model(textwrap.wrap)
def m_wrap(text, *a, **k):
    return [text] if has_sym(text) else textwrap.wrap(text, *a, **k)


@model(stat.S_IFMT)
def m_ifmt(mode):
    return mode & 0o170000 if is_sym(mode) else stat.S_IFMT(mode)


@model(stat.S_IMODE)
def m_imode(mode):
    return mode & 0o7777 if is_sym(mode) else stat.S_IMODE(mode)


def _s_is(f):
    values = frozenset(v for v in range(0, 0o200000, 0o10000) if f(v))

    def g(mode):
        if not is_sym(mode):
            return f(mode)
        fmt = mode & 0o170000
        return mkbool(Or(*[zb(fmt == v) for v in values]))
    return g


for _n in ("S_ISDIR", "S_ISREG", "S_ISLNK", "S_ISSOCK", "S_ISFIFO", "S_ISCHR", "S_ISBLK",
           "S_ISDOOR", "S_ISPORT", "S_ISWHT"):
    MODELS[getattr(stat, _n)] = _s_is(getattr(stat, _n))
del _n


@model(stat.filemode)
def m_filemode(mode):
    if not is_sym(mode):
        return stat.filemode(mode)
    out = []
    for bit, ch in stat._filemode_table[0]:
        if mode & bit == bit:
            out.append(ch)
            break
    else:
        out.append("-")
    for table in stat._filemode_table[1:]:
        e, dom = 45, {45}
        for bit, ch in reversed(table):
            c = zb(mode & bit == bit)
            if c is True:
                e, dom = ord(ch), {ord(ch)}
            elif c is not False:
                e = z3.If(c, ord(ch), e)
                dom.add(ord(ch))
        out.append(mkstr((e if type(e) is int else Ch(e, frozenset(dom)),)))
    # the C version prints '?' for unknown types, where the table yields '-'
    if out[0] == "-" and not (mode & 0o170000 == stat.S_IFREG):
        out[0] = "?"
    return _join("", out)


@model(os.fspath)
def m_fspath(x):
    return x if type(x) in SYMSEQ else os.fspath(x)


@model(os.fsencode)
def m_fsencode(x):
    return x.encode("utf-8", "surrogateescape") if type(x) is SymStr else os.fsencode(x)


@model(os.fsdecode)
def m_fsdecode(x):
    return x.decode("utf-8", "surrogateescape") if type(x) is SymBytes else os.fsdecode(x)


@model(isinstance)
def m_isinstance(x, cls):
    t = type(x)
    if t in SYM:
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        return issubclass(_TYPES[t], cls) if isinstance(cls, type) else isinstance(x, cls)
    return isinstance(x, cls)


@model(round)
def m_round(x, n=None):
    if type(x) in (SymInt, SymBits):
        return x
    if type(x) is SymReal:
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


@model(_copy.copy)
def m_copy(x):
    return x if is_sym(x) else _copy.copy(x)


@model(_copy.deepcopy)
def m_deepcopy(x, memo=None):
    if is_sym(x):
        return x
    if type(x) in (list, tuple) and has_sym(x):
        return type(x)(m_deepcopy(y) for y in x)
    return _copy.deepcopy(x, memo)


# ------------------------------------------------------------------- dicts --
def _dict_get(d, k, default=None):
    for key in list(d):
        if decide(sym_eq(key, k)):
            return dict.__getitem__(d, key)
    return default


def _dict_setdefault(d, k, default=None):
    for key in list(d):
        if decide(sym_eq(key, k)):
            return dict.__getitem__(d, key)
    d[k] = default
    return default


def _dict_pop(d, k, *default):
    for key in list(d):
        if decide(sym_eq(key, k)):
            return d.pop(key)
    if default:
        return default[0]
    raise KeyError(k)


DICT_METHODS = {"get": _dict_get, "setdefault": _dict_setdefault, "pop": _dict_pop}

METHODS = {}


def method(t, name):
    def deco(f):
        METHODS[(t, name)] = f
        return f
    return deco


@method(str, "join")
def _str_join(self, f, parts):
    parts = list(parts)
    if has_sym(parts):
        return SymStr(map(ord, self)).join(parts)
    return f(parts)


@method(bytes, "join")
def _bytes_join(self, f, parts):
    parts = list(parts)
    if has_sym(parts):
        return SymBytes(self).join(parts)
    return f(parts)


# -------------------------------------------------------------------- json --
_JSON_ESC = {34: '\\"', 92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 8: "\\b", 12: "\\f"}


def _json_str(s, ascii_only):
    if type(s) is not SymStr:
        return json.dumps(s, ensure_ascii=ascii_only)
    out = [34]
    for c in s.c:
        if type(c) is not int:
            plain = frozenset(range(32, 127 if ascii_only else 0x110000)) - {34, 92}
            if decide(in_set(c, plain)):
                out.append(c)
                continue
            c = ord(mkstr((c,)).concrete())
        out.extend(map(ord, json.dumps(chr(c), ensure_ascii=ascii_only)[1:-1]))
    return mkstr(out + [34])


def _json_scalar(o, ascii_only):
    t = type(o)
    if t is SymStr or isinstance(o, str):
        return _json_str(o, ascii_only)
    if t is SymBool:
        return "true" if o else "false"
    if t is SymInt:
        return int_to_str(o, 10)
    if t is SymBits:
        return int_to_str(toint(o), 10)
    if o is None or isinstance(o, (bool, int, float)):
        return json.dumps(o)
    return None


def _json_encode(o, ascii_only, item, colon, default, sort_keys, out):
    s = _json_scalar(o, ascii_only)
    if s is not None:
        out.append(s)
    elif isinstance(o, (list, tuple)):
        out.append("[")
        for i, x in enumerate(o):
            if i:
                out.append(item)
            _json_encode(x, ascii_only, item, colon, default, sort_keys, out)
        out.append("]")
    elif isinstance(o, dict):
        out.append("{")
        pairs = list(o.items())
        if sort_keys:
            pairs = sorted(pairs, key=lambda t: t[0])
        for i, (k, v) in enumerate(pairs):
            if i:
                out.append(item)
            if not isinstance(k, str):
                k = _json_scalar(k, ascii_only)
                if k is None:
                    raise TypeError("keys must be str, int, float, bool or None")
            out.append(_json_str(k, ascii_only))
            out.append(colon)
            _json_encode(v, ascii_only, item, colon, default, sort_keys, out)
        out.append("}")
    elif default is not None:
        _json_encode(default(o), ascii_only, item, colon, default, sort_keys, out)
    else:
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def _json_deep_sym(o):
    if isinstance(o, dict):
        return any(has_sym((k,)) or _json_deep_sym(v) for k, v in o.items())
    if isinstance(o, (list, tuple, set)):
        return any(map(_json_deep_sym, o))
    return is_sym(o)


def _json_text(obj, kw):
    kw = dict(kw)
    ascii_only = kw.pop("ensure_ascii", True)
    default = kw.pop("default", None)
    sort_keys = kw.pop("sort_keys", False)
    separators = kw.pop("separators", None)
    if any(v not in (None, False) for k, v in kw.items() if k not in ("check_circular", "allow_nan")):
        raise Unsupported("json with " + ", ".join(kw))
    item, colon = separators or (", ", ": ")
    out = []
    _json_encode(obj, ascii_only, item, colon, default, sort_keys, out)
    return _join("", out)


@model(json.dumps)
def m_json_dumps(obj, **kw):
    if not _json_deep_sym(obj):
        return json.dumps(obj, **kw)
    return _json_text(obj, kw)


@model(json.dump)
def m_json_dump(obj, fp, **kw):
    if not _json_deep_sym(obj):
        return json.dump(obj, fp, **kw)
    fp.write(_json_text(obj, kw))


@model(io.StringIO)
def m_stringio(initial="", newline="\n"):
    if not has_sym(initial):
        return io.StringIO(initial, newline)
    if newline != "\n":
        raise Unsupported("StringIO with newline")
    from . import world
    f = world.File(None, "<string>", initial, "r", None, None, "\n", world.Node("f"))
    f._decoded = True
    return f


@model(pickle.dumps)
def m_pickle_dumps(obj, *a, **kw):
    if not _json_deep_sym(obj):
        return pickle.dumps(obj, *a, **kw)
    return sql.Pickled(_pickle_copy(obj))


@model(pickle.loads)
def m_pickle_loads(data, *a, **kw):
    return _pickle_copy(data.obj) if type(data) is sql.Pickled else pickle.loads(data, *a, **kw)


def _pickle_copy(o):
    t = type(o)
    if t in (list, tuple, set, frozenset):
        return t([_pickle_copy(x) for x in o])
    if t is dict:
        return {_pickle_copy(k): _pickle_copy(v) for k, v in o.items()}
    if is_sym(o) or o is None or t in (bool, int, float, str, bytes):
        return o
    if has_sym(vars(o) if hasattr(o, "__dict__") else ()):
        raise Unsupported("pickle of an object with symbolic parts")
    return o


@method(str, "format")
def _str_format(self, f, *a, **k):
    if not has_sym(a) and not has_sym(k):
        return f(*a, **k)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(self):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field " + field)
        if spec and "{" in spec:
            raise Unsupported("nested format spec")
        out.append(sx_fmt(v, ord(conv) if conv else -1, spec or ""))
    return _join("", out)


# ------------------------------------------------------------- os.path etc --
def load_instrumented(name, path, patches=None, namespace=None):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    for a, b in patches or ():
        assert a in src, (path, a)
        src = src.replace(a, b)
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__dict__.update(namespace or {})
    exec(instr.compile_source(src, path), mod.__dict__)
    return mod


_setup_done = False


def setup():
    """Install the instrumentation entry points and load instrumented stdlib copies."""
    global _setup_done
    if _setup_done:
        return
    _setup_done = True
    builtins.__sx_call__ = sx_call
    builtins.__sx_in__ = sx_in
    builtins.__sx_notin__ = sx_notin
    builtins.__sx_is__ = sx_is
    builtins.__sx_isnot__ = sx_isnot
    builtins.__sx_not__ = sx_not
    builtins.__sx_getitem__ = sx_getitem
    builtins.__sx_setitem__ = sx_setitem
    builtins.__sx_augitem__ = sx_augitem
    builtins.__sx_fmt__ = sx_fmt
    builtins.__sx_fstr__ = sx_fstr
    builtins.__sx_deco__ = sx_deco

    import genericpath
    gp = load_instrumented("sx_genericpath", genericpath.__file__)
    sys.modules["sx_genericpath"] = gp
    pp = load_instrumented("sx_posixpath", posixpath.__file__, [
        ("import genericpath\nfrom genericpath import *",
         "import sx_genericpath as genericpath\nfrom sx_genericpath import *"),
        ("from posix import _path_normpath", "from posix import _no_such_name"),
    ])

    def guard(real, sym):
        def f(*a, **k):
            if has_sym(a) or (k and has_sym(k)):
                return sym(*a, **k)
            return real(*a, **k)
        return f

    for name in posixpath.__all__:
        real = getattr(posixpath, name)
        sym = getattr(pp, name, None)
        if callable(real) and callable(sym) and not isinstance(real, type):
            # functions that look at the (virtual) file system may meet symbolic contents
            MODELS[real] = sym if name in (
                "realpath", "exists", "lexists", "isdir", "isfile", "islink", "ismount",
                "getsize", "getmtime", "getatime", "getctime", "samefile") else guard(real, sym)

    from . import rex
    rex.setup()

    # Python-level stdlib helpers that must see symbolic text.
    import shlex
    sh = load_instrumented("sx_shlex", shlex.__file__)
    MODELS[shlex.split] = guard(shlex.split, sh.split)
    MODELS[shlex.quote] = guard(shlex.quote, sh.quote)

    import fnmatch
    fn = load_instrumented("sx_fnmatch", fnmatch.__file__)
    for name in ("fnmatch", "fnmatchcase", "translate", "filter"):
        MODELS[getattr(fnmatch, name)] = guard(getattr(fnmatch, name), getattr(fn, name))
