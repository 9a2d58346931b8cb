"""C30 formatting options merge: explicit ones win, others are inherited, nothing else changes."""
from datetime import date, datetime
from decimal import Decimal
from fluent.runtime.types import FluentDateType, FluentNone, FluentNumber, fluent_date, fluent_number
from spec import rt

ID = "C30"
EXPECT = ["number", "date", "rejected", "message", "none"]
NUM = {"style": "decimal", "type": "cardinal", "currency": None, "currencyDisplay": "symbol", "useGrouping": True,
       "minimumIntegerDigits": None, "minimumFractionDigits": None, "maximumFractionDigits": None,
       "minimumSignificantDigits": None, "maximumSignificantDigits": None}
DATE = {"timeZone": None, "hour12": None, "weekday": None, "era": None, "year": None, "month": None, "day": None, "hour": None,
        "minute": None, "second": None, "timeZoneName": None, "dateStyle": None, "timeStyle": None}
GROUPS = [["style", "currency"], ["type", "useGrouping"], ["currencyDisplay", "minimumIntegerDigits"],
          ["minimumFractionDigits", "maximumFractionDigits"], ["minimumSignificantDigits", "maximumSignificantDigits"],
          ["style", "minimumFractionDigits"], ["useGrouping", "maximumSignificantDigits"]]
CHOICES = {"style": ["decimal", "percent", "currency"], "type": ["ordinal", "cardinal"], "currency": ["USD", "EUR"],
           "currencyDisplay": ["symbol", "code", "name"], "useGrouping": [True, False],
           "timeZone": ["UTC", "Asia/Tokyo"], "dateStyle": ["full", "long", "medium", "short"],
           "timeStyle": ["full", "long", "medium", "short"]}
NULLABLE = {k: v is None for k, v in list(NUM.items()) + list(DATE.items())}
BOUNDS = ("numbers: chains of 3 (thorough 4) merges of any subset of 2 options at a time (7 pairs covering all 10 options), digit "
          "options None or any integer 0..20, on int, float and Decimal; dates: chains of 3 merges of any subset of timeZone, dateStyle and "
          "timeStyle on dates and datetimes; and any string of up to 8 characters as style, type, currencyDisplay, dateStyle or timeStyle")


def jobs(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for i in range(len(GROUPS)):
        for j in range(len(GROUPS)) if tier == "thorough" else (i, (i + 1) % len(GROUPS)):
            out.append({"name": "num:%d:%d" % (i, j), "kind": "num", "groups": [GROUPS[i], GROUPS[j], GROUPS[i], GROUPS[j]][:n]})
    for pair in (["timeZone", "dateStyle"], ["dateStyle", "timeStyle"], ["timeZone", "timeStyle"]):
        out.append({"name": "date:" + pair[0] + pair[1], "kind": "date", "groups": [pair] * n})
    for k in ("style", "type", "currencyDisplay", "dateStyle", "timeStyle"):
        for size in range(0, 9):
            out.append({"name": "bad:%s:%d" % (k, size), "kind": "bad", "key": k, "size": size})
    out.append({"name": "none", "kind": "none"})
    out.append({"name": "ftl", "kind": "ftl"})
    return out


def options(inp, step, names):
    got = {}
    for k in names:
        if inp.bool("%d%s?" % (step, k)):
            if NULLABLE[k] and inp.bool("%d%s=None" % (step, k)):
                got[k] = None
            elif k in CHOICES:
                got[k] = inp.choice("%d%s" % (step, k), CHOICES[k])
            else:
                got[k] = inp.int("%d%s" % (step, k), 0, 20)
    return got


def same(E, x, want):
    for k in want:
        E.check(getattr(x.options, k) == want[k], "another option")


def run(E, inp, job):
    kind = job["kind"]
    if kind == "none":
        for x in (FluentNone(), FluentNone("n")):
            E.check(fluent_number(x) is x and fluent_number(x, style="percent") is x and fluent_date(x) is x,
                    "a missing value does not stay one")
        for bad in ("1", None, [1], date(2020, 1, 1), object):
            try:
                fluent_number(bad)
                E.fail("something that is no number is taken as one")
            except TypeError:
                pass
        for bad in ("1", None, [1], 1, 1.5):
            try:
                fluent_date(bad)
                E.fail("something that is no date is taken as one")
            except TypeError:
                pass
        try:
            fluent_date(date(2020, 1, 1), timeStyle="short")
            E.fail("a date takes a time style")
        except TypeError:
            pass
        E.tag("none")
        return
    if kind == "bad":
        k = job["key"]
        v = inp.text("v", [job["size"]])
        good = v in CHOICES[k]
        try:
            if k in DATE:
                x = fluent_date(datetime(2020, 1, 1), **{k: v})
            elif good and v == "currency":
                x = fluent_number(1, **{k: v, "currency": "USD"})
            else:
                x = fluent_number(1, **{k: v})
        except ValueError:
            x = None
            E.tag("rejected")
        E.check((x is not None) == good, "an option value is wrongly accepted or rejected")
        if x is not None:
            E.check(getattr(x.options, k) == v, "another option")
        return
    if kind == "ftl":
        n, lo = inp.int("n", 0, 9), inp.int("lo", 0, 3)
        x = fluent_number(n, minimumFractionDigits=lo, useGrouping=False)
        b, r = rt.bundle(["m = {NUMBER($x, minimumIntegerDigits: 2)}|{NUMBER($x, minimumFractionDigits: 1)}|{$x}\n"])
        ref = {"x": ("num", n, 0, {"minimumFractionDigits": lo, "useGrouping": False})}
        rt.agree(E, b, r, {"x": x}, ref)
        want = dict(NUM)
        want["minimumFractionDigits"] = lo
        want["useGrouping"] = False
        same(E, x, want)
        E.tag("message")
        return
    defaults = NUM if kind == "num" else DATE
    if kind == "num":
        v = inp.choice("value", [7, 2.5, Decimal("1.25")])
        make = fluent_number
    else:
        v = inp.choice("value", [datetime(2020, 1, 2, 3, 4, 5), date(2020, 1, 2)])
        make = fluent_date
    x, want = v, defaults
    trail = []
    step = 0
    for names in job["groups"]:
        opts = options(inp, step, names)
        step += 1
        expected = dict(want)
        for k in opts:
            expected[k] = opts[k]
        ok = not (expected.get("style") == "currency" and expected["currency"] is None)
        if "timeStyle" in opts and not isinstance(v, datetime):
            ok = False
        given = dict(opts)
        try:
            y = make(x, **given)
        except (TypeError, ValueError):
            y = None
            E.tag("rejected")
        E.check((y is not None) == ok, "options are wrongly accepted or rejected")
        E.check(len(given) == len(opts), "the given options were changed")
        if y is None:
            continue
        E.check(isinstance(y, FluentNumber if kind == "num" else FluentDateType) and isinstance(y, type(v)), "another type")
        E.check(y == v, "another value")
        x, want = y, expected
        trail.append((y, expected))
    for y, expected in trail:
        same(E, y, expected)
    same(E, make(v), defaults)
    E.tag("number" if kind == "num" else "date")
