"""C40 a bundle follows the first of its locales that is known, in everything it formats."""
from datetime import date
import babel
from babel.dates import format_date
from fluent.runtime import AbstractResourceLoader, FluentBundle, FluentLocalization, FluentResource
from fluent.runtime.types import fluent_date
from spec import decimals, plurals

ID = "C40"
EXPECT = ["first", "later", "none known", "localization"]
KNOWN = {"en-US": ("en-US", ",", "."), "de": ("de", ".", ","), "pl-PL": ("pl", None, ","), "cs": ("cs", "\u00a0", ","),
         "ru_RU": ("ru", "\u00a0", ","), "ja": ("ja", ",", ".")}
POOL = ["en-US", "de", "pl-PL", "cs", "ru_RU", "ja", "qq", "xx-YY", "qq-DE"]
BOUNDS = ("every list of 0..3 locales out of 9 (6 of them known: with and without region, either separator); any integer 10000..1000000 and "
          "fraction of 1 place shown, grouped, and selected on by cardinal and ordinal category (0..130), a date shown; in bundles, and in a "
          "localization whose message is in any one of its locales")
SOURCES = {"group": "m = {NUMBER($n)}\n", "point": "m = {$n}\n", "date": "m = {DATETIME($n, dateStyle: \"long\")}\n",
           "plural": "m = {$n ->\n [one] one\n [few] few\n [many] many\n *[other] other\n}\n",
           "ordinal": "m = {NUMBER($n, type: \"ordinal\") ->\n [one] one\n [two] two\n [few] few\n *[other] other\n}\n"}


def jobs(tier):
    out = []
    for n in range(0, 4):
        for first in POOL if n else [None]:
            for a in SOURCES:
                out.append({"name": "%d:%s:%s" % (n, first, a), "n": n, "first": first, "kind": "bundle", "aspect": a})
    for n in (1, 2, 3):
        for a in SOURCES:
            out.append({"name": "l10n:%d:%s" % (n, a), "n": n, "first": "qq" if n > 1 else None, "kind": "l10n", "aspect": a})
    return out


class Loader(AbstractResourceLoader):
    def __init__(self, where, source):
        self.source = source
        self.where = where
        self.asked = -1

    def resources(self, locale, resource_ids):
        self.asked += 1
        yield [FluentResource(self.source if self.asked == self.where else "other = x\n")]


def run(E, inp, job):
    locales = []
    for i in range(job["n"]):
        locales.append(job["first"] if i == 0 and job["first"] else inp.choice("locale%d" % i, POOL))
    aspect = job["aspect"]
    source = SOURCES[aspect]
    if aspect == "date":
        v = date(2021, 3, 4)
    elif aspect == "group":
        v = inp.int("n", 10000, 1000000)
    else:
        v = inp.int("n", -999, 999) if aspect == "point" else inp.int("n", 0, 130)
    args = {"n": v / 10 if aspect == "point" else v}
    given = list(locales)
    where = 0
    if job["kind"] == "l10n":
        where = inp.choice("where", range(job["n"]))
        text = FluentLocalization(locales, ["x"], Loader(where, source)).format_value("m", args)
        E.tag("localization")
    else:
        b = FluentBundle(locales, use_isolating=False)
        b.add_resource(FluentResource(source))
        text, errors = b.format_pattern(b.get_message("m").value, args)
        E.check(errors == [], "formatting reports errors")
        E.check(b.locales == given, "a bundle has other locales than it was given")
    E.check(locales == given, "the given locales were changed")
    known = [x for x in given[where:] if x in KNOWN]
    E.check(isinstance(text, str), "the result is no string")
    if not known:
        E.tag("none known")
        return
    E.tag("first" if known[0] == given[where] else "later")
    name, group, point = KNOWN[known[0]]
    if aspect == "group":
        want = decimals.render(v, 0, {}).replace(",", group or "\u00a0")
    elif aspect == "point":
        want = decimals.render(v, 1, {}).replace(".", point)
    elif aspect == "date":
        want = format_date(v, "long", locale=babel.Locale.parse(known[0].replace("-", "_")))
    else:
        want = plurals.category(name, aspect == "ordinal", v, 0)
    E.check(text == want, "a " + aspect + " of another locale")
    E.observe(text)

