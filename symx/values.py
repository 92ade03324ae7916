"""Symbolic stand-ins for bool, int, str and bytes.

Strings have a concrete length on every path; each element is an int (known code point) or a
Ch: a z3 Int expression with a finite domain of code points, so that every character predicate
and mapping is tabulated from the real Python function over that domain."""

import z3

from . import core
from .core import eng, Unsupported


# ---------------------------------------------------------------- bool --
def zb(x):
    """z3 Bool (or Python bool) of a truth value without forking when possible."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.e
    return bool(x)


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return core.mk_and(out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return core.mk_or(out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    neg = getattr(x, "sx_neg", None)
    if neg is not None:
        return neg
    return core.mk_not(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if core.is_true(e):
        return True
    if core.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, other):
        if type(other) is SymBool:
            return mkbool(self.e == other.e)
        if other is True or (type(other) is int and other == 1):
            return self
        if other is False or (type(other) is int and other == 0):
            return mkbool(Not(self.e))
        if type(other) is SymInt or type(other) is SymBits:
            return toint(self) == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else sx_not(r)

    def __and__(self, other):
        if type(other) in (bool, SymBool):
            return mkbool(And(self.e, zb(other)))
        return toint(self) & other

    def __or__(self, other):
        if type(other) in (bool, SymBool):
            return mkbool(Or(self.e, zb(other)))
        return toint(self) | other

    def __xor__(self, other):
        if type(other) in (bool, SymBool):
            return self != other
        return toint(self) ^ other

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return ~toint(self)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return toint(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return toint(self) - o

    def __rsub__(self, o):
        return o - toint(self)

    def __mul__(self, o):
        return toint(self) * o

    __rmul__ = __mul__

    def __neg__(self):
        return -toint(self)

    def __lshift__(self, o):
        return toint(self) << o

    def __lt__(self, o):
        return toint(self) < o

    def __le__(self, o):
        return toint(self) <= o

    def __gt__(self, o):
        return toint(self) > o

    def __ge__(self, o):
        return toint(self) >= o


def sx_not(x):
    if type(x) is SymBool:
        return mkbool(Not(x.e))
    return not x


# ----------------------------------------------------------------- int --
def toint(x):
    """Convert a symbolic number to SymInt."""
    if type(x) is SymBool:
        return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if type(x) is SymBits:
        return x.as_int()
    return x


def ze(x):
    """z3 Int expression or Python int for an operand, None if not an integer."""
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymInt:
        return x.e
    if t is SymBits or t is SymBool:
        r = toint(x)
        return r.e if type(r) is SymInt else r
    if isinstance(x, int) and t is not SymInt:
        return int(x)
    return None


def mkint(e):
    if isinstance(e, int):
        return int(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt:
    __slots__ = ("e", "dom")

    def __init__(self, e, dom=None):
        self.e = e
        self.dom = dom          # code points it ranges over, if it came from ord()

    __class__ = property(lambda self: int)

    def _bin(self, other, op, rev=False):
        o = ze(other)
        if o is None:
            if type(other) is SymReal or isinstance(other, float):
                return NotImplemented if type(other) is not SymReal else \
                    getattr(SymReal(z3.ToReal(self.e)), op)(other)
            return NotImplemented
        a, b = (o, self.e) if rev else (self.e, o)
        if op == "__add__":
            return mkint(a + b)
        if op == "__sub__":
            return mkint(a - b)
        if op == "__mul__":
            return mkint(a * b)
        raise Unsupported(op)

    def __add__(self, o):
        return self._bin(o, "__add__")

    def __radd__(self, o):
        return self._bin(o, "__add__", True)

    def __sub__(self, o):
        return self._bin(o, "__sub__")

    def __rsub__(self, o):
        return self._bin(o, "__sub__", True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "__mul__")

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "__mul__", True)

    def _divmod(self, a, b):
        # Python floor semantics; z3 div rounds so that the remainder is non-negative.
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if b > 0:
                return a / b, a % b
        else:
            if eng().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if eng().branch(b > 0):
                return a / b, a % b
        # negative divisor: floor(a/b) = -ceil(a/-b)
        q = -((a + (-b) - 1) / (-b))
        return q, a - q * b

    def __floordiv__(self, o):
        b = ze(o)
        if b is None:
            return NotImplemented
        return mkint(self._divmod(self.e, b)[0])

    def __mod__(self, o):
        b = ze(o)
        if b is None:
            return NotImplemented
        return mkint(self._divmod(self.e, b)[1])

    def __divmod__(self, o):
        b = ze(o)
        if b is None:
            return NotImplemented
        q, r = self._divmod(self.e, b)
        return mkint(q), mkint(r)

    def __rfloordiv__(self, o):
        a = ze(o)
        if a is None:
            return NotImplemented
        return mkint(self._divmod(z3.IntVal(a) if isinstance(a, int) else a, self.e)[0])

    def __rmod__(self, o):
        a = ze(o)
        if a is None:
            return NotImplemented
        return mkint(self._divmod(z3.IntVal(a) if isinstance(a, int) else a, self.e)[1])

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __lshift__(self, o):
        return self * (1 << (o if type(o) is int else o.__index__()))

    def __rshift__(self, o):
        return self // (1 << (o if type(o) is int else o.__index__()))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __xor__(self, o):
        return self.__index__() ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def _cmp(self, o, f):
        b = ze(o)
        if b is None:
            if type(o) is SymReal:
                return mkbool(f(z3.ToReal(self.e), o.e))
            if isinstance(o, float):
                if o != o:
                    return False
                if o in (float("inf"), float("-inf")):
                    return f(0, o)
                return mkbool(f(z3.ToReal(self.e), realval(o)))
            return NotImplemented
        return mkbool(f(self.e, b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(int, name):
            raise AttributeError(name)
        return getattr(self.__index__(), name)


def realval(f):
    n, d = f.as_integer_ratio()
    return z3.RealVal(n) / z3.RealVal(d)


class SymReal:
    """Exact real number; stands for a float where every operation involved is exact (file times)
    and for Decimal/Fraction."""
    __slots__ = ("e", "places")

    def __init__(self, e, places=None):
        self.e = e
        self.places = places        # (i, n) if it is i / 10**n

    __class__ = property(lambda self: float)

    def _o(self, o):
        if type(o) is SymReal:
            return o.e
        if isinstance(o, float) and type(o) is float:
            return realval(o)
        if type(o) not in SYM and hasattr(o, "as_integer_ratio"):
            n, d = o.as_integer_ratio()
            return z3.RealVal(n) / z3.RealVal(d)
        i = ze(o)
        if i is None:
            return None
        return z3.RealVal(i) if isinstance(i, int) else z3.ToReal(i)

    def _op(self, o, f):
        b = self._o(o)
        return NotImplemented if b is None else SymReal(f(self.e, b))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, o, f):
        b = self._o(o)
        if b is None:
            return NotImplemented
        if eng().branch(z3.simplify(b == 0)):
            raise ZeroDivisionError("float division by zero")
        return SymReal(f(self.e, b))

    def _rdiv(self, o, f):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return SymReal(b)._div(self, f)

    def __truediv__(self, o):
        return self._div(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._rdiv(o, lambda a, b: a / b)

    def __floordiv__(self, o):
        return self._div(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)))

    def __rfloordiv__(self, o):
        return self._rdiv(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)))

    def __mod__(self, o):
        return self._div(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)))

    def __rmod__(self, o):
        return self._rdiv(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)))

    def __divmod__(self, o):
        return self // o, self % o

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def _cmp(self, o, f):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(f(self.e, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __neg__(self):
        return SymReal(-self.e)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def trunc(self):
        return mkint(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    __trunc__ = trunc

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __int__(self):
        return eng().concretize(self.trunc().e)

    def scaled(self, n, text=False):
        """round(self * 10**n) as a symbolic integer.  Which way a number goes that is as good as halfway between
        two is left open, as it depends on the float that stands for the real."""
        x = self.e * 10 ** n if n >= 0 else self.e / 10 ** -n
        if text and self.places is not None and self.places[1] <= n:
            return mkint(self.places[0] * 10 ** (n - self.places[1]))
        eng().fresh += 1
        r = z3.Int(f"round{eng().fresh}")
        half = z3.RealVal("500000000001/1000000000000")
        eng().assume(z3.And(z3.ToReal(r) - x <= half, x - z3.ToReal(r) <= half))
        return mkint(r)

    def __round__(self, n=None):
        r = self.scaled(n or 0)
        if n is None:
            return r
        return SymReal(z3.ToReal(r.e) / 10 ** n if n >= 0 else z3.ToReal(r.e) * 10 ** -n, (r.e, n))

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __repr__(self):
        return "<symreal>"

    def __str__(self):
        raise Unsupported("text of a symbolic real")

    __float__ = __str__


class SymBits:
    """Non-negative or negative integer as a list of bits (LSB first) plus sign extension; for
    file modes."""
    __slots__ = ("b", "neg")

    def __init__(self, bits, neg=False):
        self.b = list(bits)
        self.neg = neg

    __class__ = property(lambda self: int)

    @staticmethod
    def of(x, width):
        if type(x) is SymBits:
            b = x.b + [x.neg] * (width - len(x.b))
            return b, x.neg
        return [bool(x >> i & 1) for i in range(width)], x < 0

    def _bit(self, o, f):
        if type(o) is SymBool:
            o = SymBits([o.e])
        if type(o) is SymInt:
            return None
        if type(o) is not SymBits and not isinstance(o, int):
            return None
        w = max(len(self.b), len(o.b) if type(o) is SymBits else int(o).bit_length())
        a, an = self.of(self, w)
        b, bn = self.of(o, w)
        return mkbits([f(x, y) for x, y in zip(a, b)], f(an, bn))

    def __and__(self, o):
        r = self._bit(o, And)
        return self.as_int() & o if r is None else r

    def __or__(self, o):
        r = self._bit(o, Or)
        return self.as_int() | o if r is None else r

    def __xor__(self, o):
        r = self._bit(o, lambda x, y: Or(And(x, Not(y)), And(Not(x), y)))
        return self.as_int() ^ o if r is None else r

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return mkbits([Not(x) for x in self.b], Not(self.neg))

    def __lshift__(self, o):
        return mkbits([False] * int(o) + self.b, self.neg)

    def __rshift__(self, o):
        return mkbits(self.b[int(o):], self.neg)

    def as_int(self):
        const = 0
        terms = []
        for i, b in enumerate(self.b):
            if b is True:
                const += 1 << i
            elif b is not False:
                terms.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
        if self.neg is True:
            const -= 1 << len(self.b)
        elif self.neg is not False:
            terms.append(z3.If(self.neg, z3.IntVal(-(1 << len(self.b))), z3.IntVal(0)))
        if not terms:
            return const
        e = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return SymInt(e + const)

    def __eq__(self, o):
        if type(o) is SymBits or (isinstance(o, int) and type(o) is not SymInt):
            if type(o) is SymBool:
                o = SymBits([o.e])
            w = max(len(self.b), len(o.b) if type(o) is SymBits else int(o).bit_length())
            a, an = self.of(self, w)
            b, bn = self.of(o, w)

            def iff(x, y):
                if x is True:
                    return y
                if y is True:
                    return x
                if x is False:
                    return Not(y)
                if y is False:
                    return Not(x)
                return x == y
            return mkbool(And(*[iff(x, y) for x, y in zip(a + [an], b + [bn])]))
        if type(o) is SymInt:
            return toint(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __bool__(self):
        r = Or(*self.b, self.neg)
        return r if isinstance(r, bool) else eng().branch(r)

    def _cmp(self, o, op):
        if type(o) is int and o == 0 and self.neg is False:
            nz = Or(*self.b)
            return {"__gt__": mkbool(nz), "__ge__": True, "__lt__": False,
                    "__le__": mkbool(Not(nz))}[op]
        a = self.as_int()
        if type(a) is int:
            if type(o) in SYM:
                inv = {"__gt__": "__lt__", "__lt__": "__gt__", "__ge__": "__le__",
                       "__le__": "__ge__"}[op]
                return getattr(toint(o), inv)(a)
            return getattr(a, op)(o)
        return getattr(a, op)(o)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        a = self.as_int()
        return a if type(a) is int else a.__index__()

    __int__ = __index__

    def __repr__(self):
        return "<symbits>"

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def _arith(op):
        def f(self, o):
            a = self.as_int()
            return getattr(a, op)(o)
        return f

    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
               "__floordiv__", "__mod__", "__truediv__"):
        locals()[_n] = _arith(_n)
    del _n


def mkbits(bits, neg=False):
    while bits and bits[-1] is False and neg is False:
        bits = bits[:-1]
    if isinstance(neg, bool) and all(isinstance(b, bool) for b in bits):
        v = sum(1 << i for i, b in enumerate(bits) if b)
        return v - (1 << len(bits)) if neg else v
    return SymBits(bits, neg)


# ---------------------------------------------------------------- char --
class Ch:
    """A symbolic character."""
    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom          # frozenset of code points


_runs_cache = {}
_cond_cache = {}


def in_set(c, s):
    """Condition that char `c` is in the set `s` of code points (a frozenset/set)."""
    if isinstance(c, int):
        return c in s
    inter = c.dom & s
    if not inter:
        return False
    if len(inter) == len(c.dom):
        return True
    ckey = (core.ident(c.e), inter, c.dom)
    hit = _cond_cache.get(ckey)
    if hit is not None:
        return hit[1]
    key = (c.dom, inter)
    runs = _runs_cache.get(key)
    if runs is None:
        runs = []
        negate = len(inter) * 2 > len(c.dom)
        members = c.dom - inter if negate else inter
        start = prev = None
        for cp in sorted(c.dom):
            if cp in members:
                if start is None:
                    start = cp
                prev = cp
            elif start is not None:
                runs.append((start, prev))
                start = None
        if start is not None:
            runs.append((start, prev))
        runs = (negate, runs)
        _runs_cache[key] = runs
    negate, spans = runs
    e = Or(*[core.int_eq(c.e, a) if a == b else core.int_range(c.e, a, b) for a, b in spans])
    if negate:
        e = Not(e)
    if len(_cond_cache) > 100000:
        _cond_cache.clear()
    _cond_cache[ckey] = (c.e, e)
    return e


def ceq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return in_set(b, frozenset((a,)))
    if isinstance(b, int):
        return in_set(a, frozenset((b,)))
    if a is b or a.e.eq(b.e):
        return True
    if not a.dom & b.dom:
        return False
    return a.e == b.e


def cexpr(c):
    return z3.IntVal(c) if isinstance(c, int) else c.e


_pred_cache = {}


def pred_set(dom, key, f):
    k = (dom, key)
    s = _pred_cache.get(k)
    if s is None:
        s = frozenset(cp for cp in dom if f(chr(cp)))
        _pred_cache[k] = s
    return s


def cpred(c, key, f):
    """Condition that predicate `f` (on one-char strings) holds for `c`."""
    if isinstance(c, int):
        return bool(f(chr(c)))
    return in_set(c, pred_set(c.dom, key, f))


def cmap(c, key, f):
    """Map a char through `f` (one-char string -> string); list of chars. Forks only if the result
    length varies."""
    if isinstance(c, int):
        return [ord(x) for x in f(chr(c))]
    groups = {}
    for cp in c.dom:
        groups.setdefault(len(f(chr(cp))), set()).add(cp)
    if len(groups) > 1:
        for n, members in sorted(groups.items()):
            if eng().branch(in_set(c, frozenset(members))):
                return cmap(Ch(c.e, frozenset(members)), key, f)
        raise core.Abort()
    n = next(iter(groups))
    out = []
    for i in range(n):
        deltas = {}
        for cp in c.dom:
            deltas.setdefault(ord(f(chr(cp))[i]) - cp, set()).add(cp)
        if set(deltas) == {0}:
            out.append(c)
            continue
        items = sorted(deltas.items(), key=lambda t: -len(t[1]))
        e = c.e + items[0][0] if items[0][0] else c.e
        for d, members in items[1:]:
            e = z3.If(in_set(c, frozenset(members)), c.e + d, e)
        dom = frozenset(ord(f(chr(cp))[i]) for cp in c.dom)
        if len(dom) == 1:
            out.append(next(iter(dom)))
        else:
            out.append(Ch(e, dom))
    return out


# -------------------------------------------------------------- strings --
WS = frozenset(cp for cp in range(0x3001) if chr(cp).isspace())
BWS = frozenset(b" \t\n\r\x0b\x0c")


def chars(x):
    """List of chars for a str/SymStr."""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return x.c
    if isinstance(x, str):
        return tuple(map(ord, x))
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    raise TypeError(f"expected string, got {type(x)}")


def mkstr(cs):
    if all(type(c) is int for c in cs):
        return "".join(map(chr, cs))
    return SymStr(tuple(cs))


def mkbytes(cs):
    if all(type(c) is int for c in cs):
        return bytes(cs)
    return SymBytes(tuple(cs))


def decide(cond):
    """Fork on a z3/Python bool."""
    if cond is True or cond is False:
        return cond
    return eng().branch(cond)


class _Seq:
    """Common part of SymStr and SymBytes."""
    __slots__ = ("c",)

    def __init__(self, cs):
        self.c = tuple(cs)

    # conversions
    def _like(self, other):
        raise NotImplementedError

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return "<symstr>"

    def _eq(self, other):
        o = chars(other)
        if len(o) != len(self.c):
            return False
        return And(*[ceq(a, b) for a, b in zip(self.c, o)])

    def __eq__(self, other):
        if not self._like(other):
            return False
        return mkbool(self._eq(other))

    def __ne__(self, other):
        if not self._like(other):
            return True
        return mkbool(Not(self._eq(other)))

    def _lt(self, a, b, strict):
        """a < b (or <=) lexicographically."""
        n = min(len(a), len(b))
        res = len(a) < len(b) if strict else len(a) <= len(b)
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            if isinstance(x, int) and isinstance(y, int):
                if x < y:
                    res = True
                elif x > y:
                    res = False
                continue
            lt = cexpr(x) < cexpr(y)
            res = Or(lt, And(ceq(x, y), res))
        return res

    def __lt__(self, o):
        if not self._like(o):
            return NotImplemented
        return mkbool(self._lt(self.c, chars(o), True))

    def __le__(self, o):
        if not self._like(o):
            return NotImplemented
        return mkbool(self._lt(self.c, chars(o), False))

    def __gt__(self, o):
        if not self._like(o):
            return NotImplemented
        return mkbool(self._lt(chars(o), self.c, True))

    def __ge__(self, o):
        if not self._like(o):
            return NotImplemented
        return mkbool(self._lt(chars(o), self.c, False))

    def _chk(self, o):
        if not self._like(o):
            raise TypeError(f"must be {self._name}, not {type(o).__name__}")
        return chars(o)

    def __add__(self, o):
        if not self._like(o):
            return NotImplemented
        return self._mk(self.c + tuple(chars(o)))

    def __radd__(self, o):
        if not self._like(o):
            return NotImplemented
        return self._mk(tuple(chars(o)) + self.c)

    def __mul__(self, n):
        return self._mk(self.c * int(n))

    __rmul__ = __mul__

    # searching
    def _match_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        return And(*[ceq(self.c[i + k], sub[k]) for k in range(len(sub))])

    def _contains(self, sub):
        return Or(*[self._match_at(sub, i) for i in range(len(self.c) - len(sub) + 1)])

    def __contains__(self, sub):
        return decide(self._contains(self._chk(sub)))

    def _range(self, start, end):
        return slice(start, end).indices(len(self.c))[:2]

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi = self._range(start, end)
        if start is not None and int(start) > len(self.c):
            return -1
        for i in range(lo, hi - len(sub) + 1):
            if decide(self._match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi = self._range(start, end)
        if start is not None and int(start) > len(self.c):
            return -1
        for i in range(hi - len(sub), lo - 1, -1):
            if decide(self._match_at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi = self._range(start, end)
        if len(sub) == 1:
            conds = [ceq(self.c[i], sub[0]) for i in range(lo, hi)]
            const = sum(1 for x in conds if x is True)
            sym = [z3.If(x, z3.IntVal(1), z3.IntVal(0)) for x in conds if not isinstance(x, bool)]
            if not sym:
                return const
            return mkint((z3.Sum(sym) if len(sym) > 1 else sym[0]) + const)
        if not sub:
            return hi - lo + 1
        n = 0
        i = lo
        while i <= hi - len(sub):
            if decide(self._match_at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if start is not None or end is not None:
            return _promote(self[slice(start, end)]).startswith(prefix)
        if isinstance(prefix, tuple):
            return mkbool(Or(*[self._match_at(self._chk(p), 0) for p in prefix]))
        return mkbool(self._match_at(self._chk(prefix), 0))

    def endswith(self, suffix, start=None, end=None):
        if start is not None or end is not None:
            return _promote(self[slice(start, end)]).endswith(suffix)
        if isinstance(suffix, tuple):
            return mkbool(Or(*[self._match_at(self._chk(s), len(self.c) - len(s))
                               for s in suffix]))
        suffix = self._chk(suffix)
        return mkbool(self._match_at(suffix, len(self.c) - len(suffix)))

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            return self[len(prefix):]
        return self

    def removesuffix(self, suffix):
        if len(suffix) and self.endswith(suffix):
            return self[:-len(suffix)]
        return self

    def _stripset(self, cset):
        if cset is None:
            ws = self._ws
            return lambda c: in_set(c, ws)
        cs = self._chk(cset)
        return lambda c: Or(*[ceq(c, x) for x in cs])

    def lstrip(self, cset=None):
        f = self._stripset(cset)
        i = 0
        while i < len(self.c) and decide(f(self.c[i])):
            i += 1
        return self._mk(self.c[i:])

    def rstrip(self, cset=None):
        f = self._stripset(cset)
        i = len(self.c)
        while i > 0 and decide(f(self.c[i - 1])):
            i -= 1
        return self._mk(self.c[:i])

    def strip(self, cset=None):
        return _promote(self.lstrip(cset)).rstrip(cset)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        out = []
        cs = self.c
        n = len(cs)
        if sep is None:
            ws = self._ws
            i = 0
            while True:
                while i < n and decide(in_set(cs[i], ws)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(_promote(self._mk(cs[i:])).rstrip())
                    break
                j = i
                while j < n and not decide(in_set(cs[j], ws)):
                    j += 1
                out.append(self._mk(cs[i:j]))
                i = j
            return out
        sep = self._chk(sep)
        if not sep:
            raise ValueError("empty separator")
        i = start = 0
        while i <= n - len(sep):
            if 0 <= maxsplit <= len(out):
                break
            if decide(self._match_at(sep, i)):
                out.append(self._mk(cs[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(self._mk(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        cs = self.c
        out = []
        if sep is None:
            ws = self._ws
            i = len(cs)
            while True:
                while i > 0 and decide(in_set(cs[i - 1], ws)):
                    i -= 1
                if i <= 0:
                    break
                if len(out) >= maxsplit:
                    out.append(_promote(self._mk(cs[:i])).lstrip())
                    break
                j = i
                while j > 0 and not decide(in_set(cs[j - 1], ws)):
                    j -= 1
                out.append(self._mk(cs[j:i]))
                i = j
            out.reverse()
            return out
        sep = self._chk(sep)
        if not sep:
            raise ValueError("empty separator")
        end = len(cs)
        i = end - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if decide(self._match_at(sep, i)):
                out.append(self._mk(cs[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self._mk(cs[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._mk(()), self._mk(())
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._mk(()), self._mk(()), self
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def splitlines(self, keepends=False):
        nl = self._nl
        out = []
        cs = self.c
        i = start = 0
        n = len(cs)
        while i < n:
            if decide(in_set(cs[i], nl)):
                j = i + 1
                if decide(ceq(cs[i], 13)) and j < n and decide(ceq(cs[j], 10)):
                    j += 1
                out.append(self._mk(cs[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._mk(cs[start:]))
        return out

    def replace(self, old, new, count=-1):
        old = self._chk(old)
        new = tuple(self._chk(new))
        out = []
        i = 0
        n = len(self.c)
        done = 0
        if not old:
            return _concrete_call(self, "replace", old, new, count)
        while i < n:
            if i + len(old) <= n and (count < 0 or done < count) and \
                    decide(self._match_at(old, i)):
                out.extend(new)
                i += len(old)
                done += 1
            else:
                out.append(self.c[i])
                i += 1
        return self._mk(out)

    def join(self, parts):
        out = []
        for i, part in enumerate(parts):
            if i:
                out.extend(self.c)
            if not self._like(part):
                raise TypeError(f"sequence item {i}: expected {self._name} instance, "
                                f"{type(part).__name__} found")
            out.extend(chars(part))
        return self._mk(out)

    def _map(self, key, f):
        out = []
        for c in self.c:
            out.extend(cmap(c, key, f))
        return self._mk(out)

    def ljust(self, width, fill=" "):
        return self + fill * max(0, int(width) - len(self.c))

    def rjust(self, width, fill=" "):
        return fill * max(0, int(width) - len(self.c)) + self

    def concrete(self):
        e = eng()
        return self._mkc([c if isinstance(c, int) else e.concretize(c.e) for c in self.c])

    def _sub(self, sub):
        return self._chk(sub)


class SymStr(_Seq):
    __slots__ = ()
    _name = "str"
    _ws = WS
    _nl = frozenset(cp for cp in range(0x2030) if len(("a" + chr(cp) + "b").splitlines()) > 1)

    __class__ = property(lambda self: str)
    __hash__ = _Seq.__hash__

    def _like(self, o):
        return type(o) is SymStr or (isinstance(o, str))

    _mk = staticmethod(mkstr)
    _mkc = staticmethod(lambda cs: "".join(map(chr, cs)))

    def __str__(self):
        return self.concrete()

    __fspath__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[_cslice(i)])
        return mkstr((self.c[i if type(i) is int else i.__index__()],))

    def __iter__(self):
        return iter([mkstr((c,)) for c in self.c])

    def lower(self):
        return self._map("lower", str.lower)

    def upper(self):
        return self._map("upper", str.upper)

    def casefold(self):
        return self._map("casefold", str.casefold)

    def swapcase(self):
        return self._map("swapcase", str.swapcase)

    def _all(self, key, f):
        if not self.c:
            return False
        return mkbool(And(*[cpred(c, key, f) for c in self.c]))

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isascii(self):
        return mkbool(And(*[cpred(c, "isascii", str.isascii) for c in self.c]))

    def isprintable(self):
        return mkbool(And(*[cpred(c, "isprintable", str.isprintable) for c in self.c]))

    def islower(self):
        bad = And(*[Not(cpred(c, "badl", lambda x: x.isupper() or x.istitle()))
                    for c in self.c])
        some = Or(*[cpred(c, "islower", str.islower) for c in self.c])
        return mkbool(And(bad, some))

    def isupper(self):
        bad = And(*[Not(cpred(c, "badu", lambda x: x.islower() or (x.istitle() and
                                                                  not x.isupper())))
                    for c in self.c])
        some = Or(*[cpred(c, "isupper", str.isupper) for c in self.c])
        return mkbool(And(bad, some))

    def zfill(self, width):
        return self.rjust(width, "0")

    def encode(self, encoding="utf-8", errors="strict"):
        out = []
        for i, c in enumerate(self.c):
            if isinstance(c, int):
                out.extend(chr(c).encode(encoding, errors))
                continue
            ascii_only = frozenset(cp for cp in c.dom if cp < 128)
            if decide(in_set(c, ascii_only)):
                out.append(Ch(c.e, ascii_only) if len(ascii_only) > 1 else next(iter(ascii_only)))
            else:
                out.extend(chr(eng().concretize(c.e)).encode(encoding, errors))
        return mkbytes(out)

    def translate(self, table):
        return self._map(("tr", id(table)), lambda x: x.translate(table))

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


class SymBytes(_Seq):
    __slots__ = ()
    _name = "bytes"
    _ws = BWS
    _nl = frozenset((10, 13))

    __class__ = property(lambda self: bytes)
    __hash__ = _Seq.__hash__

    def _like(self, o):
        return type(o) is SymBytes or isinstance(o, (bytes, bytearray))

    def _sub(self, sub):
        if isinstance(sub, int):
            return (sub,)
        return self._chk(sub)

    _mk = staticmethod(mkbytes)
    _mkc = staticmethod(bytes)

    def __bytes__(self):
        return self.concrete()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.c[_cslice(i)])
        c = self.c[i if type(i) is int else i.__index__()]
        return c if isinstance(c, int) else SymInt(c.e)

    def __iter__(self):
        return iter([c if isinstance(c, int) else SymInt(c.e) for c in self.c])

    def lower(self):
        return self._map("blower", lambda x: x.lower() if x < "\x80" else x)

    def upper(self):
        return self._map("bupper", lambda x: x.upper() if x < "\x80" else x)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        low = frozenset(range(128))
        if enc in ("latin-1", "iso-8859-1"):
            return mkstr(self.c)
        if enc not in ("ascii", "us-ascii", "utf-8", "utf8"):
            raise Unsupported("decode " + encoding)
        if decide(And(*[in_set(c, low) for c in self.c])):
            return mkstr([c if isinstance(c, int) else Ch(c.e, c.dom & low) for c in self.c])
        return self.concrete().decode(encoding, errors)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def _cslice(s):
    def c(x):
        return x if x is None or type(x) is int else x.__index__()
    return slice(c(s.start), c(s.stop), c(s.step))


def _promote(x):
    """Wrap a concrete str/bytes so that the symbolic methods apply."""
    if type(x) in (SymStr, SymBytes):
        return x
    if isinstance(x, str):
        return SymStr(map(ord, x))
    return SymBytes(x)


def _concrete_call(s, name, *args):
    raise Unsupported(f"{name} with these arguments")


SYM = frozenset((SymBool, SymInt, SymReal, SymBits, SymStr, SymBytes))
SYMSEQ = frozenset((SymStr, SymBytes))


def is_sym(x):
    return type(x) in SYM


def has_sym(x, depth=3):
    t = type(x)
    if t in SYM:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(has_sym(y, depth - 1) for y in x.values()) or \
            any(has_sym(y, depth - 1) for y in x)
    return False


def reify(v, model):
    """Concrete value of an input under a model."""
    t = type(v)
    ev = lambda e: model.eval(e, model_completion=True)
    if t is SymBool:
        return core.is_true(ev(v.e))
    if t is SymInt:
        return ev(v.e).as_long()
    if t is SymBits:
        return sum((1 << i) for i, b in enumerate(v.b)
                   if b is True or (b is not False and core.is_true(ev(b))))
    if t is SymReal:
        r = ev(v.e)
        return [r.numerator_as_long(), r.denominator_as_long()]
    if t is SymStr:
        return [c if isinstance(c, int) else ev(c.e).as_long() for c in v.c]
    if t is SymBytes:
        return [c if isinstance(c, int) else ev(c.e).as_long() for c in v.c]
    if isinstance(v, str):
        return [ord(c) for c in v]
    if isinstance(v, bytes):
        return list(v)
    return v
