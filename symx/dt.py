"""datetime with a clock the harness controls, and parsing of symbolic date strings.  The parsing
follows _strptime: its own regular expressions are executed over the symbolic text."""

import calendar
import datetime as _dt
import time as _time
import _strptime
import z3

from . import values, world
from .core import Fake
from .values import has_sym

RealDT = _dt.datetime
RealDate = _dt.date
OFFSET = 19800          # TZ=VRF-05:30
DST = ()                # periods (in UTC) in which clocks are one hour ahead, see props.common.zone()
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
EPOCH = RealDT(1970, 1, 1).toordinal()


def _leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def _table(tab, i):
    """tab[i - 1]"""
    r = 0
    for k, v in enumerate(tab):
        r = r + (i == k + 1) * v
    return r


def ordinal(y, m, d):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + _table(CUM, m) + ((m > 2) & _leap(y)) * 1 + d


def offset_at(utc):
    """The offset of local time at a point in time."""
    r = OFFSET
    for a, b in DST:
        r = r + ((utc >= a) & (utc < b)) * 3600
    return r


def offset_of(abs_):
    """The offset a local time has (the one before the clocks are changed if there are two)."""
    r = OFFSET
    for a, b in DST:
        r = r + ((abs_ >= a + OFFSET + 3600) & (abs_ < b + OFFSET + 3600)) * 3600
    return r


class SymDT(Fake):
    """A point in local time, in seconds since the epoch of the local calendar."""

    def __init__(self, abs_=None, f=None):
        self.f = f              # (y, m, d, h, mi, s) if known
        if abs_ is None:
            y, m, d, h, mi, s = f
            abs_ = (ordinal(y, m, d) - EPOCH) * 86400 + h * 3600 + mi * 60 + s
        self.abs = abs_

    __class__ = property(lambda self: DateTime)

    @property
    def fields(self):
        if self.f is None:
            self.f = split(self.abs)
        return self.f

    year, month, day, hour, minute, second = (property(lambda self, i=i: self.fields[i])
                                              for i in range(6))
    microsecond = 0
    tzinfo = None

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=0):
        n = [a if b is None else b for a, b in
             zip(self.fields, (year, month, day, hour, minute, second))]
        return SymDT(f=tuple(n))

    def timestamp(self):
        return self.abs - offset_of(self.abs)

    def timetuple(self):
        return SymTM(f=self.fields)

    def time(self):
        return self

    def strftime(self, fmt):
        return strftime(fmt, self.fields)

    def isoformat(self, sep="T", timespec="auto"):
        if timespec not in ("auto", "seconds"):
            raise core_unsupported("isoformat")
        return strftime("%Y-%m-%d" + sep + "%H:%M:%S", self.fields)

    def __str__(self):
        return self.isoformat(" ")

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat(" ")

    @staticmethod
    def _abs(o):
        if isinstance(o, SymDT):
            return o.abs
        if isinstance(o, RealDT):
            return (o.toordinal() - EPOCH) * 86400 + o.hour * 3600 + o.minute * 60 + o.second
        return None

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDT(self.abs - (o.days * 86400 + o.seconds))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDT(self.abs + (o.days * 86400 + o.seconds))
        return NotImplemented

    def __lt__(self, o):
        return self.abs < self._abs(o)

    def __le__(self, o):
        return self.abs <= self._abs(o)

    def __gt__(self, o):
        return self.abs > self._abs(o)

    def __ge__(self, o):
        return self.abs >= self._abs(o)

    def __eq__(self, o):
        return self.abs == self._abs(o)


def core_unsupported(text):
    from .core import Unsupported
    return Unsupported(text)


YEARS = [(ordinal(y, 1, 1) - EPOCH) * 86400 for y in range(1900, 2201)]


def split(abs_):
    """Year to second of a number of seconds since the epoch; forks on year and month."""
    branch = core_eng().branch
    if not branch(values.zb(abs_ >= YEARS[0])) or not branch(values.zb(abs_ < YEARS[-1])):
        raise core_unsupported("a time far away")
    lo, hi = 0, len(YEARS) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if branch(values.zb(abs_ >= YEARS[mid])):
            lo = mid
        else:
            hi = mid
    y = 1900 + lo
    m = 1
    while m < 12 and branch(values.zb(abs_ >= (ordinal(y, m + 1, 1) - EPOCH) * 86400)):
        m += 1
    r = abs_ - (ordinal(y, m, 1) - EPOCH) * 86400
    e = core_eng()
    e.fresh += 1
    d, h, mi, s = (values.SymInt(z3.Int(f"date{e.fresh}.{n}")) for n in "dHMS")
    e.assume(values.zb((d >= 1) & (d <= 31) & (h >= 0) & (h < 24) & (mi >= 0) & (mi < 60) & (s >= 0) & (s < 60)
                       & ((d - 1) * 86400 + h * 3600 + mi * 60 + s == r)))
    return y, m, d, h, mi, s


def strftime(fmt, f):
    from .models import sx_fmt, _join
    out = []
    fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "%":
            i += 1
            c = fmt[i]
            if c != "%":
                if c not in "YmdHMS":
                    raise core_unsupported("strftime %" + c)
                c = sx_fmt(f["YmdHMS".index(c)], -1, "04d" if c == "Y" else "02d")
        out.append(c)
        i += 1
    return _join("", out)


def core_eng():
    from .core import eng
    return eng()


class SymTM(Fake):
    """time.struct_time"""

    def __init__(self, t=None, f=None, isdst=-1):
        self.f = split(t) if f is None else f
        self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_sec = self.f
        self.tm_isdst = isdst

    def __getitem__(self, i):
        # the days of the week and of the year are not needed by mktime()
        return (tuple(self.f) + (None, None, self.tm_isdst))[i]


_pats = {}


def strptime(string, fmt):
    from .models import sx_call, m_int
    pat = _pats.get(fmt)
    if pat is None:
        pat = _pats[fmt] = _strptime.TimeRE().compile(fmt)
    for c in fmt.replace("%Y", "").replace("%m", "").replace("%d", "").replace("%H", "") \
            .replace("%M", "").replace("%S", ""):
        if c == "%":
            raise core_unsupported("strptime format " + fmt)
    m = sx_call(pat.match, string)
    if not m or m.end() != len(string):
        raise ValueError("time data does not match format")
    g = m.groupdict()
    y, mo, d, h, mi, s = (m_int(g[k]) if k in g else x for k, x in
                          (("Y", 1900), ("m", 1), ("d", 1), ("H", 0), ("M", 0), ("S", 0)))
    if y < 1:
        raise ValueError("year 0 is out of range")
    if d > _table(LEN, mo) + ((mo == 2) & _leap(y)) * 1:
        raise ValueError("day is out of range for month")
    if s > 59:
        raise ValueError("second must be in 0..59")
    return SymDT(f=(y, mo, d, h, mi, s))


class DateTime(RealDT):
    @classmethod
    def now(cls, tz=None):
        if world.CUR is None or tz is not None:
            return super().now(tz)
        return _at(cls, world.CUR.time())

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def strptime(cls, string, fmt):
        if has_sym(string):
            return strptime(string, fmt)
        return RealDT.strptime.__func__(cls, string, fmt) if hasattr(RealDT.strptime, "__func__") \
            else _strptime._strptime_datetime(cls, string, fmt)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if has_sym(t):
            return _at(cls, t)
        return super().fromtimestamp(t, tz)

    @classmethod
    def combine(cls, date, time, *a, **k):
        if isinstance(time, SymDT) and type(time) is SymDT:
            return time.replace(date.year, date.month, date.day)
        return super().combine(date, time, *a, **k)


def _at(cls, t):
    if not has_sym(t):
        return RealDT.fromtimestamp.__call__(t) if cls is RealDT else \
            super(DateTime, cls).fromtimestamp(t)
    return SymDT(t + offset_at(t))


class Date(RealDate):
    @classmethod
    def today(cls):
        if world.CUR is None:
            return super().today()
        day = getattr(world.CUR, "today", None)
        if day is not None:
            return cls(*day)
        return cls.fromtimestamp(world.CUR.time())


def _whole(t):
    return t.trunc() if type(t) is values.SymReal else t


def install():
    from .models import model

    @model(_time.localtime)
    def m_localtime(t=None):
        if not has_sym(t):
            return _time.localtime(t)
        t = _whole(t)
        off = offset_at(t)
        return SymTM(t + off, isdst=(off - OFFSET) // 3600)

    @model(_time.mktime)
    def m_mktime(t):
        if type(t) is not SymTM and not has_sym(t):
            return _time.mktime(t)
        y, m, d, h, mi, s = t[:6]
        abs_ = SymDT(f=(y, m, d, h, mi, s)).abs
        isdst = t[8]
        if not has_sym(isdst) and isdst < 0:
            return abs_ - offset_of(abs_)
        return abs_ - OFFSET - isdst * 3600

    @model(calendar.timegm)
    def m_timegm(t):
        if type(t) is not SymTM and not has_sym(t):
            return calendar.timegm(t)
        return SymDT(f=tuple(t[:6])).abs

    @model(_time.gmtime)
    def m_gmtime(t=None):
        return SymTM(_whole(t)) if has_sym(t) else _time.gmtime(t)

    @model(_time.strftime)
    def m_strftime(fmt, t=None):
        if type(t) is SymTM:
            return strftime(fmt, t.f)
        return _time.strftime(fmt, t) if t is not None else _time.strftime(fmt)

    _dt.datetime = DateTime
    _dt.date = Date
