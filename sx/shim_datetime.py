"""date and datetime with symbolic fields; everything else of the module is the real one."""
import bisect
import datetime as _d
import zoneinfo
from datetime import *  # noqa: F401,F403
from . import core, ops
from .vals import SymInt, SymStr, HasSym, concrete_int, deep_concrete
from .core import Truncated

_real = {"date": _d.date, "datetime": _d.datetime}


def __getattr__(name):
    return getattr(_d, name)


class Meta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls._base is not None and cls.__module__.startswith("sx.") and isinstance(x, cls._base)

    def __subclasscheck__(cls, k):
        if type.__subclasscheck__(cls, k):
            return True
        return cls.__module__.startswith("sx.") and type.__subclasscheck__(cls._base, k)

    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(cls._base, name)
        return wrapped(v) if callable(v) else v


def wrap(x):
    """A stand-in for a real date or datetime."""
    t = type(x)
    if t is _d.datetime:
        return datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo, fold=x.fold)
    if t is _d.date:
        return date(x.year, x.month, x.day)
    return x


def wrapped(f):
    return lambda *a, **k: wrap(f(*deep_concrete(a), **deep_concrete(k)))


_fake = {}


def plain(v):
    return v._symval() if isinstance(v, HasSym) else v


class _Base(HasSym, metaclass=Meta):
    _base = None

    @property
    def __class__(self):
        k = type(self)
        r = _fake.get(k)
        if r is None:
            r = _fake[k] = type(k.__name__, (k._base,), {"__module__": k.__module__})
        return r

    def _symval(self):
        return self

    def _is_sym(self):
        return any(type(v) is SymInt for v in self._f)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_f", "_tz", "_fold", "options"):
            raise AttributeError(name)
        v = getattr(self._concrete(), name)
        return wrapped(v) if callable(v) else v

    def _symstr(self):
        return str(self._concrete())

    def __str__(self):
        return str(self._concrete())

    def __repr__(self):
        return repr(self._concrete())

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __hash__(self):
        return hash(self._concrete())

    def _ord(self, o, op):
        o = wrap(o)
        if (self._is_sym() or isinstance(o, _Base) and o._is_sym()) and type(self) is type(o) and \
                getattr(self, "_tz", None) is getattr(o, "_tz", None):
            for a, b in zip(self._f, o._f):
                if not a == b:
                    return a < b if op in ("__lt__", "__le__") else a > b
            return op in ("__le__", "__ge__")
        return getattr(self._concrete(), op)(deep_concrete(o))

    def __lt__(self, o):
        return self._ord(o, "__lt__")

    def __le__(self, o):
        return self._ord(o, "__le__")

    def __gt__(self, o):
        return self._ord(o, "__gt__")

    def __ge__(self, o):
        return self._ord(o, "__ge__")

    def __add__(self, o):
        return wrap(self._concrete() + o)

    def __sub__(self, o):
        return wrap(self._concrete() - deep_concrete(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


def _check(base, fields, **k):
    """The constructor's own checks, on the concrete values or as branches on symbolic ones."""
    if not any(type(v) is SymInt for v in fields):
        base(*fields, **k)
        return
    lo = (1, 1, 1, 0, 0, 0, 0)
    hi = (9999, 12, 31, 23, 59, 59, 999999)
    for i, v in enumerate(fields):
        if not (v >= lo[i] and v <= hi[i]):
            raise ValueError("date field out of range")
    if not fields[2] <= 28:
        if not fields[2] <= month_days(fields[0], fields[1]):
            raise ValueError("day is out of range for month")


def month_days(y, m):
    if m == 2:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        return 29 if leap else 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


class date(_Base):
    _base = _d.date

    def __new__(cls, year, month=None, day=None):
        self = object.__new__(cls)
        f = tuple(plain(v) for v in (year, month, day))
        _check(cls._base, f)
        self._f = f
        return self

    def __init__(self, *a, **k):
        pass

    @classmethod
    def fromisoformat(cls, s):
        if cls is date and type(s) is SymStr and len(s) == 10:
            parts = [s[:4], s[5:7], s[8:]]
            if ops.call(s[4].__eq__, "-") and s[7] == "-" and all(ops.call(x.isdecimal) and ops.call(x.isascii) for x in parts):
                return date(*[ops.call(int, x) for x in parts])
        return wrap(cls._base.fromisoformat(*deep_concrete((s,))))

    year = property(lambda self: self._f[0])
    month = property(lambda self: self._f[1])
    day = property(lambda self: self._f[2])

    def _concrete(self):
        return _d.date(*[concrete_int(v) for v in self._f])

    def replace(self, year=None, month=None, day=None):
        f = [v if w is None else w for v, w in zip(self._f, (year, month, day))]
        return date(*f)

    def __eq__(self, o):
        if type(o) is _d.date:
            o = wrap(o)
        if not isinstance(o, _Base) or isinstance(type(o), Meta) and issubclass(type(o), datetime):
            return NotImplemented
        for a, b in zip(self._f, o._f):
            if not a == b:
                return False
        return True

    __hash__ = _Base.__hash__


class datetime(date):
    _base = _d.datetime

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self = object.__new__(cls)
        f = tuple(plain(v) for v in (year, month, day, hour, minute, second, microsecond))
        _check(_d.datetime, f, tzinfo=tzinfo, fold=deep_concrete(fold))
        self._f = f
        self._tz = tzinfo
        self._fold = plain(fold)
        return self

    hour = property(lambda self: self._f[3])
    minute = property(lambda self: self._f[4])
    second = property(lambda self: self._f[5])
    microsecond = property(lambda self: self._f[6])
    tzinfo = property(lambda self: self._tz)
    fold = property(lambda self: self._fold)

    def _concrete(self):
        return _d.datetime(*[concrete_int(v) for v in self._f], tzinfo=self._tz, fold=concrete_int(self._fold))

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *,
                fold=None):
        f = [v if w is None else w for v, w in zip(self._f, (year, month, day, hour, minute, second, microsecond))]
        # the real one keeps the class, calling its constructor with all fields
        return datetime(*f, self._tz if tzinfo is True else tzinfo, fold=self._fold if fold is None else fold)

    def date(self):
        return date(*self._f[:3])

    def utcoffset(self):
        if self._tz is None:
            return None
        k = offset(self)
        return _d.timedelta(minutes=k) if type(k) is int else self._concrete().utcoffset()

    def astimezone(self, tz=None):
        if not self._is_sym():
            return wrap(self._concrete().astimezone(tz))
        if tz is None or self._tz is None:
            raise Truncated("local time zone")
        if tz is self._tz:
            return self
        utc = shift(self, -offset(self))
        k, info = target(tz, utc)
        r = shift(utc, k)
        r._tz = info
        r._fold = 0
        return r

    def __eq__(self, o):
        if type(o) is _d.datetime:
            o = wrap(o)
        if type(o) is _d.date or not isinstance(o, _Base) or not issubclass(type(o), datetime):
            return NotImplemented
        if (self._tz is None) != (o._tz is None):
            return False
        a, b = self, o
        if self._tz is not o._tz:
            a, b = shift(self, -offset(self)), shift(o, -offset(o))
        for x, y in zip(a._f, b._f):
            if not x == y:
                return False
        return True

    __hash__ = _Base.__hash__


def offset(dt):
    """Minutes east of UTC of an aware stand-in."""
    tz = dt._tz
    if isinstance(tz, _d.timezone):
        o = tz.utcoffset(None)
    elif hasattr(tz, "_utcoffset") and hasattr(tz, "zone"):
        o = tz._utcoffset           # pytz: a zone object stands for one fixed offset
    elif getattr(tz, "zone", None) == "UTC":
        o = _d.timedelta(0)
    elif isinstance(tz, zoneinfo.ZoneInfo) and type(dt._f[0]) is int and 1900 < dt._f[0] < 2100:
        return wall_offset(tz, dt)
    else:
        o = dt._concrete().utcoffset()
    s = o.total_seconds()
    if s % 60:
        raise Truncated("offset with seconds")
    return int(s // 60)


_changes = {}


def changes(tz, year):
    """(first offset, [(utc time, offset before, after)]) of a ZoneInfo around a year, in minutes."""
    r = _changes.get((str(tz), year))
    if r is None:
        def at(t):
            return int(t.replace(tzinfo=_d.timezone.utc).astimezone(tz).utcoffset().total_seconds()) // 60
        t = _d.datetime(year - 1, 12, 25)
        first = last = at(t)
        found = []
        while t.year < year + 1 or t.day < 8 or t.month > 1:
            n = t + _d.timedelta(hours=1)
            o = at(n)
            if o != last:
                lo, hi = t, n
                while hi - lo > _d.timedelta(minutes=1):
                    mid = lo + (hi - lo) / 2
                    mid = mid.replace(second=0, microsecond=0)
                    if at(mid) == last:
                        lo = mid
                    else:
                        hi = mid
                found.append((hi, last, o))
                last = o
            t = n
        r = _changes[(str(tz), year)] = (first, found)
    return r


def wall_offset(tz, dt):
    """PEP 495: the offset of a local time."""
    k, found = changes(tz, dt._f[0])
    for t, a, b in found:
        late = t + _d.timedelta(minutes=max(a, b))
        early = t + _d.timedelta(minutes=min(a, b))
        edge = early if bool(dt._fold == 1) else late
        if before(dt, edge):
            return k
        k = b
    return k


def target(tz, utc):
    """(minutes, tzinfo) of tz at an instant given in UTC."""
    if hasattr(tz, "_utc_transition_times"):
        times = tz._utc_transition_times
        lo, hi = 0, len(times)      # the index after the last transition at or before utc
        while lo < hi:
            mid = (lo + hi) // 2
            if before(utc, times[mid]):
                hi = mid
            else:
                lo = mid + 1
        inf = tz._transition_info[max(0, lo - 1)]
        info = tz._tzinfos[inf]
        return int(inf[0].total_seconds() // 60), info
    if isinstance(tz, zoneinfo.ZoneInfo):
        raise Truncated("conversion to a ZoneInfo")
    probe = datetime(2000, 1, 1, tzinfo=tz)
    return offset(probe), tz


def before(a, t):
    f = (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    for x, y in zip(a._f, f):
        if x < y:
            return True
        if x > y:
            return False
    return False


def shift(dt, minutes):
    """dt moved by less than two days."""
    y, mo, d, h, mi, s, us = dt._f
    if minutes:
        t = h * 60 + mi + minutes
        n = 0
        while t < 0:
            t = t + 1440
            n -= 1
        while t >= 1440:
            t = t - 1440
            n += 1
        h, mi = t // 60, t % 60
        for _ in range(abs(n)):
            if n > 0:
                d = d + 1
                if d > month_days(y, mo):
                    d = 1
                    mo = mo + 1
                    if mo > 12:
                        mo = 1
                        y = y + 1
            else:
                d = d - 1
                if d < 1:
                    mo = mo - 1
                    if mo < 1:
                        mo = 12
                        y = y - 1
                    d = month_days(y, mo)
        if y < 1 or y > 9999:
            raise OverflowError("date value out of range")
    r = object.__new__(datetime)
    r._f = (y, mo, d, h, mi, s, us)
    r._tz = dt._tz
    r._fold = dt._fold
    return r
