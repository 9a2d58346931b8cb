"""C32 application values reach functions and formatting as the same Fluent values."""
from datetime import date, datetime, timedelta, timezone
from decimal import Decimal
import pytz
from babel import Locale
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import (FluentDate, FluentDateTime, FluentDateType, FluentDecimal, FluentFloat, FluentInt, FluentNone,
                                  FluentNumber, FluentType, fluent_date, fluent_number)
from fluent.runtime.utils import native_to_fluent

ID = "C32"
EXPECT = ["int", "float", "decimal", "date", "datetime", "other", "options"]
BOUNDS = ("every integer within +-10**12, float of up to 6 decimals within +-10**9 / 10**k, Decimal of 0..6 decimals, date, and "
          "datetime to the microsecond with any of 8 time zones or none and either fold; FluentNumbers and dates with any digit "
          "option 0..20 or style; strings of 3 arbitrary code points; histories of 3 (thorough 4) equal numbers of different kinds with and without options; infinities, NaN, booleans, None, lists, bytes, enums; given to "
          "native_to_fluent, fluent_number, fluent_date, and as an argument handed to a function")


def zones():
    return [None, pytz.UTC, timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-12)),
            pytz.timezone("Europe/Warsaw"), pytz.FixedOffset(-210), pytz.timezone("America/New_York").localize(datetime(2020, 7, 1)).tzinfo]


def jobs(tier):
    out = []
    for via in ("native", "direct", "function"):
        for kind in ("int", "date", "other", "str", "numopt", "dateopt"):
            out.append({"name": "%s:%s" % (via, kind), "kind": kind, "via": via})
        for scale in range(1, 7):
            out.append({"name": "%s:float%d" % (via, scale), "kind": "float", "scale": scale, "via": via})
            out.append({"name": "%s:decimal%d" % (via, scale), "kind": "decimal", "scale": scale, "via": via})
        for first in range(5):
            out.append({"name": "%s:history%d" % (via, first), "kind": "history", "first": first, "via": via, "n": 3 if tier == "quick" else 4})
        for z in range(8):
            out.append({"name": "%s:datetime%d" % (via, z), "kind": "datetime", "zone": z, "via": via})
    return out


EN = Locale("en", "US")


def shown(n, decimals):
    return str(n) + ("." + "0" * decimals if decimals else "")


def convert(via, v, number):
    """What a function or a formatting sees of an application's value."""
    if via == "native":
        return native_to_fluent(v)
    if via == "direct":
        return fluent_number(v) if number else fluent_date(v)
    seen = []

    def f(x):
        seen.append(x)
        return "f"
    b = FluentBundle(["en-US"], functions={"F": f})
    b.add_resource(FluentResource("m = {F($v)}\n"))
    b.format_pattern(b.get_message("m").value, {"v": v})
    return seen[0]


def default_number(o):
    return (o.style == "decimal" and o.currency is None and o.type == "cardinal" and o.currencyDisplay == "symbol"
            and o.useGrouping is True and o.minimumIntegerDigits is None and o.minimumFractionDigits is None
            and o.maximumFractionDigits is None and o.minimumSignificantDigits is None and o.maximumSignificantDigits is None)


def default_date(o):
    return o.timeZone is None and o.dateStyle is None and o.timeStyle is None and o.hour12 is None


def fields(E, got, v, time):
    E.check(got.year == v.year and got.month == v.month and got.day == v.day, "another day")
    if time:
        E.check(got.hour == v.hour and got.minute == v.minute and got.second == v.second, "another time")
        E.check(got.microsecond == v.microsecond, "another microsecond")
        E.check(got.tzinfo is v.tzinfo, "another time zone")
        E.check(got.fold == v.fold, "another fold")


def a_date(inp):
    y, m = inp.int("y", 1, 9999), inp.int("mo", 1, 12)
    return y, m, inp.int("d", 1, 31)


def run(E, inp, job):
    try:
        decide(E, inp, job)
    except NoSuchDay:
        pass


class NoSuchDay(Exception):
    pass


def make(f, *a, **k):
    try:
        return f(*a, **k)
    except ValueError:
        raise NoSuchDay()


def decide(E, inp, job):
    via, kind = job["via"], job["kind"]
    if kind == "int":
        n = inp.int("n", -10 ** 12, 10 ** 12)
        got = convert(via, n, True)
        E.check(isinstance(got, FluentInt) and isinstance(got, FluentNumber) and isinstance(got, int), "no FluentInt")
        E.check(got == n, "another integer")
        E.check(default_number(got.options), "options from nowhere")
        E.observe(n)
        E.tag("int")
    elif kind == "float":
        n = inp.int("n", -10 ** 9, 10 ** 9)
        v = n / 10 ** job["scale"]
        got = convert(via, v, True)
        E.check(isinstance(got, FluentFloat) and isinstance(got, float), "no FluentFloat")
        E.check(got == v, "another float")
        E.check(default_number(got.options), "options from nowhere")
        E.tag("float")
    elif kind == "decimal":
        n = inp.int("n", -10 ** 9, 10 ** 9)
        v = Decimal(n).scaleb(-job["scale"])
        got = convert(via, v, True)
        E.check(isinstance(got, FluentDecimal) and isinstance(got, Decimal), "no FluentDecimal")
        E.check(got == v, "another decimal")
        E.check(str(got) == str(v), "another number of decimals")
        E.check(default_number(got.options), "options from nowhere")
        E.tag("decimal")
    elif kind == "date":
        y, m, d = a_date(inp)
        v = make(date, y, m, d)
        got = convert(via, v, False)
        E.check(isinstance(got, FluentDate) and isinstance(got, date) and not isinstance(got, datetime), "no FluentDate")
        fields(E, got, v, False)
        E.check(default_date(got.options), "options from nowhere")
        E.observe(y)
        E.tag("date")
    elif kind == "datetime":
        y, m, d = a_date(inp)
        v = make(datetime, y, m, d, inp.int("h", 0, 23), inp.int("mi", 0, 59), inp.int("s", 0, 59), inp.int("us", 0, 999999),
                     tzinfo=zones()[job["zone"]], fold=inp.int("fold", 0, 1))
        got = convert(via, v, False)
        E.check(isinstance(got, FluentDateTime) and isinstance(got, datetime), "no FluentDateTime")
        fields(E, got, v, True)
        E.check(default_date(got.options), "options from nowhere")
        E.tag("datetime")
    elif kind == "numopt":
        n, k = inp.int("n", -1500, 1500), inp.int("k", 0, 20)
        which = inp.choice("which", ["int", "float", "decimal"])
        v = fluent_number({"int": n, "float": n / 100, "decimal": Decimal(n).scaleb(-3)}[which], minimumFractionDigits=k, style="percent",
                          useGrouping=False)
        got = convert(via, v, True)
        E.check(isinstance(got, type(v)), "another type")
        E.check(got == v, "another value")
        o = got.options
        E.check(o.minimumFractionDigits == k and o.style == "percent" and o.useGrouping is False and o.maximumFractionDigits is None,
                "other options")
        E.check(v.options.minimumFractionDigits == k, "the application's value changed")
        E.tag("options")
    elif kind == "dateopt":
        y, m, d = a_date(inp)
        style = inp.choice("style", ["full", "long", "medium", "short"])
        time = inp.bool("time")
        if time:
            v = fluent_date(make(datetime, y, m, d, inp.int("h", 0, 23), 1, 2, inp.int("us", 0, 999999), tzinfo=zones()[3]),
                            timeStyle=style, timeZone="Europe/Warsaw")
        else:
            v = fluent_date(make(date, y, m, d), dateStyle=style)
        got = convert(via, v, False)
        E.check(isinstance(got, type(v)), "another type")
        fields(E, got, v, time)
        if time:
            E.check(got.options.timeStyle == style and got.options.timeZone == "Europe/Warsaw" and got.options.dateStyle is None,
                    "other options")
        else:
            E.check(got.options.dateStyle == style and got.options.timeZone is None, "other options")
        E.tag("options")
    elif kind == "history":
        # equal numbers of different kinds, and the same one with and without options, one after another
        n = inp.int("n", -3, 300)
        given = []
        for step in range(job["n"]):
            k = job["first"] if step == 0 else inp.choice("kind%d" % step, range(5))
            v = [n, n / 1, Decimal(n), True, None][k] if k < 4 else fluent_number(n, minimumFractionDigits=step + 1)
            got = convert(via, v, True)
            E.check(isinstance(got, [FluentInt, FluentFloat, FluentDecimal, FluentInt, FluentInt][k]), "another kind of number")
            E.check(got == (1 if k == 3 else n), "another number")
            if k < 4:
                E.check(default_number(got.options), "options from nowhere")
            else:
                E.check(got.options.minimumFractionDigits == step + 1 and got.options.maximumFractionDigits is None, "other options")
            E.check(got.format(EN) == shown(1 if k == 3 else n, step + 1 if k == 4 else 0), "the number is shown otherwise")
            given.append((k, step, got))
        for k, step, got in given:
            E.check(got.options.minimumFractionDigits == (step + 1 if k == 4 else None), "another value's options changed")
        E.tag("options")
    elif kind == "str":
        s = inp.text("s", [3])
        if via == "direct":
            for f in (fluent_number, fluent_date):
                try:
                    f(s)
                except TypeError:
                    continue
                E.fail("a string was taken for a number or date")
            return
        got = convert(via, s, False)
        E.check(type(got) is str and got == s, "another string")
        E.observe(s)
        E.tag("other")
    else:
        b = inp.bool("b")
        none = FluentNone("x")
        if via == "direct":
            E.check(fluent_number(none) is none and fluent_date(none) is none, "a missing value was not kept")
            E.check(fluent_number(b) == (1 if b else 0), "a boolean is no number")
            for f in (fluent_number, fluent_date):
                for v in (None, [1], b"x", object):
                    try:
                        f(v)
                    except TypeError:
                        continue
                    E.fail("anything was taken for a number or date")
            return
        got = convert(via, b, True)
        E.check(isinstance(got, FluentInt) and got == (1 if b else 0), "a boolean is no number")
        for v in (none, None, [1], b"x", object):
            if via == "function" and not isinstance(v, FluentNone):
                continue
            E.check(convert(via, v, False) is v, "a value was replaced")
        for v in (float("inf"), float("-inf"), -0.0, 1e300, 5e-324):
            got = convert(via, v, True)
            E.check(isinstance(got, FluentFloat) and got == v and str(float(got)) == str(v), "another float")
        got = convert(via, float("nan"), True)
        E.check(isinstance(got, FluentFloat) and got != got, "NaN changed")
        for v in ("Infinity", "1E+30", "0.000", "-0"):
            got = convert(via, Decimal(v), True)
            E.check(isinstance(got, FluentDecimal) and str(got) == str(Decimal(v)), "another decimal")
        E.tag("other")
