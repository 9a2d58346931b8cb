"""C20 formatting never raises: it answers a string and a list of errors."""
from datetime import date, datetime, timezone, timedelta
from decimal import Decimal
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone, FluentType, fluent_date, fluent_number
from spec import rt, snippets

ID = "C20"
EXPECT = ["clean", "errors"]
INF = float("inf")


class Odd(Exception):
    pass


RAISED = [NotImplementedError("e"), ZeroDivisionError("e"), AssertionError("e"), AttributeError("e"), RecursionError("e"), OSError("e"),
          MemoryError("e"), StopIteration("e"), Odd("e")]


class Broken(FluentType):
    def __init__(self, error):
        self.error = error

    def format(self, locale):
        raise self.error


class Mute(Exception):
    def __str__(self):
        raise RuntimeError("mute")

    __repr__ = __str__


class Silent:
    def __str__(self):
        raise TypeError("silent")

    def __repr__(self):
        raise KeyError("silent")

    def __format__(self, spec):
        raise OSError("silent")


class Private:
    """Not to be compared, hashed, counted or looked into."""
    def __eq__(self, other):
        raise RuntimeError("private")

    def __getattr__(self, name):
        raise RuntimeError("private")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __getitem__ = __eq__

    def __bool__(self):
        raise RuntimeError("private")

    __hash__ = __len__ = __iter__ = __int__ = __float__ = __index__ = __neg__ = __bool__


class Numb(int):
    def __str__(self):
        raise RuntimeError("numb")

    __repr__ = __str__


def values():
    return [0, -1, 1234567, True, 1.5, -0.0, INF, -INF, INF - INF, Decimal("1.10"), Decimal("NaN"), Decimal("Infinity"),
            Decimal("1E+30"), "s", "", None, [], object, b"x", date(2020, 2, 29), datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59),
            datetime(2020, 1, 1, tzinfo=timezone(timedelta(hours=14))), FluentNone(), FluentNone("x"),
            fluent_number(3, style="percent"), fluent_number(2, type="ordinal"), fluent_number(Decimal("2"), type="ordinal"),
            fluent_number(5, style="currency", currency="XYZ"), fluent_date(date(2020, 1, 1), dateStyle="full"),
            fluent_date(datetime(2020, 1, 1), timeZone="Nowhere/Land"), 10 ** 40, 1e300, Decimal("sNaN"), FluentType()] + [Broken(e) for e in RAISED] + [
        Mute("x"), Silent(), Mute, [Silent()], (Mute("x"),), ValueError("x"), KeyboardInterrupt("x"), Numb(3), 1 + 2j, lambda: 1, ..., Private(), [Private()],
        "\u00b2", "\u0663.5", "9" * 5000]


BASES = {
    "show": "m = x {$v} y\n .a = {$v}\n",
    "sel": "m = {$v ->\n [1] a\n [one] b\n *[x] {$v}\n}\n",
    "num": "m = {NUMBER($v, minimumFractionDigits: 1)} {NUMBER($v, style: \"percent\")}\n",
    "opt": "m = a {NUMBER($v, maximumSignificantDigits: 0)}{NUMBER(1, currency: \"U\", style: \"currency\")}\n",
    "date": "m = {DATETIME($v, dateStyle: \"short\", timeZone: \"UTC\")}\n",
    "time": "m = {DATETIME($v, timeStyle: \"full\")} {DATETIME(1)}\n",
    "nsel": "m = {NUMBER($v, type: \"ordinal\") ->\n [one] a\n *[2] {-t(v: 1)}\n}\n-t = {$v}{$w}\n",
    "nest": "m = {a}{a}\na = {-t} {NUMBER($v, minimumIntegerDigits: \"x\")}\n-t = {m} {b.c}\n",
    "fun": "m = {F($v, k: 1)}{G()}{NUMBER($v, $v)}{H()}\n",
}
PLAIN = {"str": "m = {\"\\u00e9\\UFFFFFF\\\\\"}{-t}\n-t = {-t}\n", "cyc": "a = {b}\nb = {c.d}\nc = x\n .d = {a}\n"}
BOUNDS = ("9 resources x 60 argument values of every kind (any string of 2 code points, infinities, NaN, huge and tiny numbers, dates at both ends of the "
          "calendar, None, wrong types, values whose format raises any of 10 exceptions, objects and exceptions whose str and repr raise, or whose comparisons, hash, length, attributes do) and 11 resources with each position replaced by 1 (thorough also extended by 1) arbitrary "
          "code point; isolation on and off; locales en-US, ar")


def jobs(tier):
    out = []
    n = 60
    for name in BASES:
        out.append({"name": name, "parts": [BASES[name]], "values": list(range(n)) + [-1], "locales": ["en-US", "ar"]})
        few = [4, 6, 15, 22, 34, 43, 45, 55, 57] if tier == "quick" else [0, 2, 4, 6, 8, 9, 13, 15, 19, 20, 22, 23, 34, 38, 43, 44, 45, 51, 55, 56, 57, 58]
        for drop, free in ([(1, 1)] if tier == "quick" else [(1, 1), (0, 1)]):
            for pos in range(5, len(BASES[name]) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "values": few, "locales": ["en-US"],
                            "parts": snippets.window(BASES[name], pos, drop, free)})
    for name in PLAIN:
        for pos in range(0, len(PLAIN[name])):
            out.append({"name": "%s@%d" % (name, pos), "values": [0], "locales": ["en-US"],
                        "parts": snippets.window(PLAIN[name], pos, 1, 1)})
    return out


def boom(*args, **kwargs):
    raise IndexError("boom")


def ok(*args, **kwargs):
    return "ok"


def none(*args):
    return FluentNone("missing")


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    k = inp.choice("value", job["values"])
    value = inp.text("text", [2]) if k < 0 else values()[k]
    locale = inp.choice("locale", job["locales"])
    b = FluentBundle([locale], functions={"F": boom, "G": none, "H": ok}, use_isolating=inp.bool("isolating"))
    res = FluentResource(s)
    b.add_resource(res)
    for e in res.body:
        if type(e).__name__ != "Message":
            continue
        m = b.get_message(e.id.name)
        pats = list(m.attributes.values())
        if m.value is not None:
            pats.append(m.value)
        for p in pats:
            text, errors = b.format_pattern(p, {"v": value})
            E.check(isinstance(text, str), "the result is no string")
            E.check(isinstance(errors, list), "the errors are no list")
            for x in errors:
                E.check(isinstance(x, Exception), "an error is no exception")
            E.tag("errors" if errors else "clean")
            E.observe(text)
            b.format_pattern(p)
