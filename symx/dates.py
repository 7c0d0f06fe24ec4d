"""datetime, time.gmtime and time.strftime over a symbolic clock."""
import calendar
import datetime as dt
import email.utils
import time

from symx import core
from symx.core import Sym, SymInt, Unsupported, cur, func, is_sym, mkint
from symx.rt import CLASS_MODELS, METHOD_MODELS, model

_EPOCH = dt.datetime(1970, 1, 1)
_gmtime, _strftime = time.gmtime, time.strftime


def now():
    return cur().env.time_value()


def text(t, fmt):
    """The time t according to a format: as different as the times are."""
    if not is_sym(t):
        return _strftime(fmt, _gmtime(t))
    return func("date:" + fmt, t, core.ALNUM + " ,:-+.", minlen=1, soft=True)


class SymDelta(Sym):
    __slots__ = ("secs",)

    def __init__(self, secs):
        self.secs = secs

    def total_seconds(self):
        return self.secs

    def __neg__(self):
        return SymDelta(-self.secs)

    def __add__(self, o):
        return SymDelta(self.secs + secs_of(o)) if isinstance(o, (SymDelta, dt.timedelta)) else \
            NotImplemented

    __radd__ = __add__

    def __mul__(self, n):
        return SymDelta(self.secs * n)

    __rmul__ = __mul__


def secs_of(d):
    return d.secs if isinstance(d, SymDelta) else int(d.total_seconds())


class SymTime(Sym):
    """A point in time: a datetime in UTC or a struct_time."""
    __slots__ = ("t",)
    tzinfo = dt.timezone.utc

    def __init__(self, t):
        self.t = t

    def __add__(self, d):
        return SymTime(self.t + secs_of(d))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymTime):
            return SymDelta(self.t - o.t)
        if isinstance(o, dt.datetime):
            return SymDelta(self.t - calendar.timegm(o.utctimetuple()))
        return SymTime(self.t - secs_of(o))

    def replace(self, tzinfo=None, microsecond=0):
        return self

    def astimezone(self, tz=None):
        return self

    def timestamp(self):
        return self.t

    def utctimetuple(self):
        return self

    timetuple = utctimetuple

    def strftime(self, fmt):
        return text(self.t, fmt)

    def isoformat(self, *a, **k):
        return text(self.t, "%Y-%m-%dT%H:%M:%S")

    def _c(self, o):
        return o.t if isinstance(o, SymTime) else calendar.timegm(o.utctimetuple())

    def __lt__(self, o): return self.t < self._c(o)
    def __le__(self, o): return self.t <= self._c(o)
    def __gt__(self, o): return self.t > self._c(o)
    def __ge__(self, o): return self.t >= self._c(o)

    def __eq__(self, o):
        return isinstance(o, (SymTime, dt.datetime)) and self.t == self._c(o)

    def __hash__(self):
        return 11


def register():
    def m_now(tz=None):
        return SymTime(now())

    def m_from(t, tz=None):
        return SymTime(t)

    for n in ("now", "utcnow"):
        METHOD_MODELS[dt.datetime, n] = m_now
    for n in ("fromtimestamp", "utcfromtimestamp"):
        METHOD_MODELS[dt.datetime, n] = m_from

    def m_delta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not core.has_sym(a):
            return dt.timedelta(*a)
        return SymDelta(seconds + 60 * minutes + 3600 * hours + 86400 * days + 604800 * weeks)

    CLASS_MODELS[dt.timedelta] = m_delta

    @model(time.gmtime)
    def m_gmtime(t=None):
        return SymTime(now() if t is None else t)

    @model(calendar.timegm)
    def m_timegm(t):
        return t.t if isinstance(t, SymTime) else calendar.timegm(t)

    @model(time.strftime)
    def m_strftime(fmt, t=None):
        if t is None:
            t = SymTime(now())
        return text(t.t, fmt) if isinstance(t, SymTime) else time.strftime(fmt, t)

    @model(email.utils.formatdate)
    def m_formatdate(t=None, localtime=False, usegmt=False):
        return text(now() if t is None else t,
                    "%a, %d %b %Y %H:%M:%S " + ("GMT" if usegmt else "-0000"))
