"""Dates with symbolic fields are rendered to an opaque text, one for each date, style and locale."""
import babel.dates as _b
from babel.dates import *  # noqa: F401,F403
from .. import ops, vals, shim_datetime
from ..core import Truncated
from ..vals import SymStr, HasSym, deep_concrete

_real_tz = _b.get_timezone
_real_date, _real_time, _real_datetime = _b.format_date, _b.format_time, _b.format_datetime


def __getattr__(name):
    return getattr(_b, name)


def get_timezone(zone=None):
    """Names are matched ignoring the case of ASCII letters; everything else is unknown."""
    z = zone._symval() if isinstance(zone, HasSym) else zone
    if type(z) is not SymStr:
        return _real_tz(z)
    from .numbers import known_name
    import pytz
    if "_" in vals.items_of(z)[:-5]:
        return _real_tz(vals.deep_concrete(z))
    name = known_name(z, list(pytz.all_timezones) + ["UTC"], True)
    if name is None:
        raise LookupError(ops.fstr("Unknown timezone ", (z, None, None)))
    return _real_tz(name)


def opaque(kind, fmt, locale, fields):
    parts = ["\ue200", kind, ":", str(fmt), ":", str(locale)]
    for f in fields:
        parts += [":", (f, None, None)]
    return ops.fstr(*parts, "\ue201")


def symbolic(x):
    return isinstance(type(x), shim_datetime.Meta) and x._is_sym()


def format_date(date=None, format="medium", locale=None):
    if not symbolic(date):
        return _real_date(deep_concrete(date), deep_concrete(format), locale)
    fmt = deep_concrete(format)
    if fmt not in ("full", "long", "medium", "short"):
        raise Truncated("date format")
    return opaque("date", fmt, locale, date._f[:3])


def format_time(time=None, format="medium", tzinfo=None, locale=None):
    if not symbolic(time):
        return _real_time(deep_concrete(time), deep_concrete(format), tzinfo, locale)
    fmt = deep_concrete(format)
    if fmt not in ("full", "long", "medium", "short") or not issubclass(type(time), shim_datetime.datetime):
        raise Truncated("time format")
    if time._tz is None:
        time = time.replace(tzinfo=_b.UTC)
    if tzinfo is not None:
        time = time.astimezone(tzinfo)
    # the zone's name is shown only by the two longest styles
    zone = "" if fmt in ("short", "medium") else repr(time._tz) + repr(time._f[:3])
    fields = time._f[3:5] if fmt == "short" else time._f[3:6]
    if zone:
        fields = fields + time._f[:3]
        zone = repr(time._tz)
    return opaque("time" + zone, fmt, locale, fields)


def format_datetime(datetime=None, format="medium", tzinfo=None, locale=None):
    if not symbolic(datetime):
        return _real_datetime(deep_concrete(datetime), deep_concrete(format), tzinfo, locale)
    raise Truncated("format_datetime")


ops.FOREIGN_MODEL[_real_tz] = get_timezone
ops.FOREIGN_MODEL[_real_date] = format_date
ops.FOREIGN_MODEL[_real_time] = format_time
ops.FOREIGN_MODEL[_real_datetime] = format_datetime
