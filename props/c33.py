"""C33 dates and times are shown in the style and time zone asked for."""
from datetime import date, datetime, timedelta, timezone
import zoneinfo
import pytz
from babel import Locale
from babel.dates import format_date, format_time
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_date

ID = "C33"
EXPECT = ["date", "datetime", "summer", "winter", "other day", "other year"]
STYLES = [None, "full", "long", "medium", "short"]
GLUE = {"en-US": ", ", "ja": " ", "ar": "\u060c "}
BOUNDS = ("every date of the years 1..9999; every minute (and any second and microsecond) of 2..9998 for naive, UTC and fixed-offset (also named like another zone) "
          "datetimes shown in UTC, a fixed offset or as they are, and of 2020 for datetimes in or shown in New York, Warsaw and Lord "
          "Howe (pytz and zoneinfo, both folds); all 5 date styles x 5 time styles; en-US, ja, ar; options given in code or by DATETIME; quick: half of the "
          "source and target pairs in one style, and 1 in 7 of the other style combinations for one month of 2020")

# minutes east of UTC before, during and after the middle of 2020, and when (month, day, hour, minute in UTC) it starts and ends
RULES = {"America/New_York": (-300, -240, (3, 8, 7, 0), (11, 1, 6, 0)),
         "Europe/Warsaw": (60, 120, (3, 29, 1, 0), (10, 25, 1, 0)),
         "Australia/Lord_Howe": (660, 630, (4, 4, 15, 0), (10, 3, 15, 30))}
FIXED = {"UTC": 0, "Etc/GMT+5": -300}


def sources():
    """(name, tzinfo, minutes or rule name)"""
    return [("naive", None, 0), ("utc", pytz.UTC, 0), ("utc2", timezone.utc, 0),
            ("east", timezone(timedelta(hours=5, minutes=30)), 330), ("west", pytz.FixedOffset(-720), -720),
            ("edt", pytz.timezone("America/New_York").localize(datetime(2020, 7, 1)).tzinfo, -240),
            ("ny", zoneinfo.ZoneInfo("America/New_York"), "America/New_York"),
            ("lh", zoneinfo.ZoneInfo("Australia/Lord_Howe"), "Australia/Lord_Howe"),
            ("posing", timezone(timedelta(hours=7), "UTC"), 420), ("posing2", timezone(timedelta(hours=-9), "America/New_York"), -540),
            ("gmt", timezone(timedelta(0), "GMT"), 0), ("wet", pytz.timezone("Europe/Lisbon").localize(datetime(2020, 1, 1)).tzinfo, 0)]


def jobs(tier):
    out = []
    n = 0
    for loc in GLUE:
        for ds in STYLES:
            out.append({"name": "date:%s:%s" % (loc, ds), "kind": "date", "locale": loc, "ds": ds})
    for src in range(len(sources())):
        for zi, zone in enumerate([None, "UTC", "Etc/GMT+5", "America/New_York", "Europe/Warsaw", "Australia/Lord_Howe"]):
            for ds in STYLES:
                for ts in STYLES:
                    n += 1
                    deep = ds == ts == "full" and (src + zi) % 2 == 0 or tier == "thorough" and ds == ts
                    if tier == "quick" and not deep and n % 7:
                        continue
                    out.append({"name": "time:%d:%s:%s:%s" % (src, zone, ds, ts), "kind": "time", "src": src, "zone": zone, "ds": ds,
                                "ts": ts, "deep": deep,
                                "months": [7, 12] if tier == "thorough" else [7 + n % 2 * 5], "locale": ["en-US", "ja", "ar"][n % 3], "ftl": n % 2 == 0})
    return out


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def last(y, m):
    """The number of days of a month."""
    if m == 2:
        return 29 if leap(y) else 28
    return 30 if m == 4 or m == 6 or m == 9 or m == 11 else 31


def moved(y, m, d, h, mi, by):
    """The date and time by minutes later, by less than a day."""
    t = h * 60 + mi + by
    if t < 0:
        t = t + 1440
        if d > 1:
            d = d - 1
        elif m > 1:
            m = m - 1
            d = last(y, m)
        else:
            y, m, d = y - 1, 12, 31
    elif t >= 1440:
        t = t - 1440
        if d < 28 or d < last(y, m):
            d = d + 1
        elif m < 12:
            m, d = m + 1, 1
        else:
            y, m, d = y + 1, 1, 1
    return y, m, d, t // 60, t % 60


def earlier(a, b):
    for x, y in zip(a, b):
        if x < y:
            return True
        if x > y:
            return False
    return False


def summer(rule, y, m, d, h, mi):
    """Whether an instant in UTC lies in the middle part of 2020."""
    if y != 2020:
        return False
    at = (m, d, h, mi)
    return not earlier(at, rule[2]) and earlier(at, rule[3])


def local_offset(rule, y, m, d, h, mi, fold):
    """The offset of a local time: where two are possible, fold 0 is the first; where none is, the one before."""
    a = summer(rule, *moved(y, m, d, h, mi, -rule[0]))      # seen from standard time
    b = summer(rule, *moved(y, m, d, h, mi, -rule[1]))      # seen from the other time
    if a == b:
        return rule[1] if a else rule[0]
    # around a change: both readings are valid (not a, b) or neither is (a, not b)
    start = m < 7
    before = rule[0] if start else rule[1]
    after = rule[1] if start else rule[0]
    return before if fold == 0 else after


def run(E, inp, job):
    ds, ts, loc = job["ds"], job.get("ts"), job["locale"]
    b = FluentBundle([loc], use_isolating=False)
    babel = Locale.parse(loc.replace("-", "_"))
    if job["kind"] == "date":
        y, m, d = inp.int("y", 1, 9999), inp.int("m", 1, 12), inp.int("d", 1, 31)
        E.assume(d <= 28 or d <= last(y, m))
        v = date(y, m, d)
        opts = {"dateStyle": ds} if ds else {}
        if inp.bool("zone"):
            opts["timeZone"] = "America/New_York"      # a date is no instant
        show(E, inp, b, v, opts, format_date(v, ds or "medium", locale=babel))
        E.tag("date")
        return
    name, tz, off = sources()[job["src"]]
    zone = job["zone"]
    free = isinstance(off, int) and zone not in RULES
    y = inp.int("y", 2, 9998) if free and job["deep"] else 2020
    m, d = inp.int("m", 1, 12) if job["deep"] else inp.choice("month", job["months"]), inp.int("d", 1, 31)
    E.assume(d <= 28 or d <= last(y, m))
    h, mi, s, us = inp.int("h", 0, 23), inp.int("mi", 0, 59), inp.int("s", 0, 59), inp.int("us", 0, 999999)
    fold = inp.choice("fold", [0, 1]) if isinstance(off, str) else 0
    v = datetime(y, m, d, h, mi, s, us, tzinfo=tz, fold=fold)
    opts = {}
    if ds:
        opts["dateStyle"] = ds
    if ts:
        opts["timeStyle"] = ts
    if zone:
        opts["timeZone"] = zone
    shown = (y, m, d, h, mi)
    out = tz or pytz.UTC
    if zone:
        if isinstance(off, str):
            off = local_offset(RULES[off], y, m, d, h, mi, fold)
        utc = moved(y, m, d, h, mi, -off)
        if zone in RULES:
            hot = summer(RULES[zone], *utc)
            E.tag("summer" if hot else "winter")
            shown = moved(*utc, RULES[zone][1 if hot else 0])
            out = pytz.timezone(zone).localize(datetime(2020, 7 if hot else 12, 1)).tzinfo
        else:
            shown = moved(*utc, FIXED[zone])
            out = pytz.timezone(zone)
        if shown[2] != d:
            E.tag("other day")
        if shown[0] != y:
            E.tag("other year")
    want = datetime(*shown, s, us, tzinfo=out)
    if ds and ts:
        text = format_date(want, ds, locale=babel) + GLUE[loc] + format_time(want, ts, locale=babel)
    elif ts:
        text = format_time(want, ts, locale=babel)
    else:
        text = format_date(want, ds or "medium", locale=babel)
    show(E, inp, b, v, opts, text, job["ftl"])
    E.tag("datetime")


def show(E, inp, b, v, opts, want, ftl=None):
    if ftl if ftl is not None else inp.bool("ftl"):
        given = ", ".join(k + ': "' + opts[k] + '"' for k in sorted(opts))
        b.add_resource(FluentResource("m = {DATETIME($v" + (", " + given if given else "") + ")}\n"))
        arg = v
    else:
        b.add_resource(FluentResource("m = {$v}\n"))
        arg = fluent_date(v, **opts)
    text, errors = b.format_pattern(b.get_message("m").value, {"v": arg})
    E.check(errors == [], "formatting a date reports errors")
    E.check(text == want, "a date is shown otherwise")
