"""C44 a localization hands on to loader and bundles what it was given."""
from fluent.runtime import AbstractResourceLoader, FluentBundle, FluentLocalization, FluentResource

ID = "C44"
EXPECT = ["own class", "own maker", "own bundles", "two places", "found", "missing", "later locale"]
BOUNDS = ("1..3 locales (equal ones among them), 1..2 places each yielding a list of 1..2 resources or nothing, resource identifiers of "
          "1 arbitrary code point, messages of 2 names; functions not given, empty, replacing NUMBER or new; isolation on and off; a bundle "
          "class of one's own, a subclass making its own bundles, or one finding its own; 1..2 requests for any of 3 names; quick: with more than "
          "2 places in all, one request, one resource in all but the first place and 2 choices of functions and isolation")
LOCALES = ["de", "en-US", "pl"]


def jobs(tier):
    out = []
    for how in ("class", "maker", "bundles"):
        for n in (1, 2, 3):
            for roots in (1, 2):
                for count in (0, 1, 2):
                    many = count == 1 and n * roots == 1 or how == "bundles"
                    if n * roots > 2 and count != 2 or how == "bundles" and roots > 1:
                        continue
                    for given in (0, 1, 2, 3) if many else (n % 2 * 3, 2 - n % 2):
                        out.append({"name": "%s:%d:%d:%d:%d" % (how, n, roots, count, given), "how": how, "n": n, "roots": roots,
                                    "count": count, "given": given, "isos": [False, True] if many else [count % 2 == 0],
                                    "turns": 2 if n * roots < 3 or tier == "thorough" else 1, "both": n * roots < 3 or tier == "thorough"})
    return out


class Loader(AbstractResourceLoader):
    def __init__(self, inp, job, log):
        self.inp, self.job, self.log = inp, job, log

    def resources(self, locale, resource_ids):
        nth = len(self.log["asked"])
        self.log["asked"].append((locale, list(resource_ids)))
        for root in range(self.job["roots"]):
            tag = "%d.%d" % (nth, root)
            many = self.inp.int("many" + tag, 0, 2 if self.job["both"] or nth == 0 and root == 0 else 1)
            got = []
            for k in range(2):
                if k < many:
                    name = self.inp.text("name%s.%d" % (tag, k), [[1, "ab"]]) if k == 0 else "b"
                    got.append((name, "%s.%d" % (tag, k)))
            if got:
                self.log["yielded"].append((nth, got))
                yield [FluentResource(name + " = " + text + " {F()} {NUMBER(1)} {$x}\n") for name, text in got]


class Own(FluentBundle):
    made = []

    def __init__(self, *args, **kwargs):
        Own.made.append(self)
        self.added = 0
        super().__init__(*args, **kwargs)

    def add_resource(self, resource, allow_overrides=False):
        self.added += 1
        return super().add_resource(resource, allow_overrides)


class Maker(FluentLocalization):
    def _create_bundle(self, locales):
        b = Own(locales, self.functions, self.use_isolating)
        b.mark = len(Own.made)
        return b


class Bundles(FluentLocalization):
    def _bundles(self):
        bundle = self._create_bundle(self.locales)
        bundle.add_resource(FluentResource("a = own {F()} {NUMBER(1)} {$x}\n"))
        yield bundle


def fun():
    return "fun"


def num(x):
    return "num"


def run(E, inp, job):
    how, n = job["how"], job["n"]
    Own.made = []
    log = {"asked": [], "yielded": []}
    locales = [LOCALES[inp.choice("locale%d" % i, [1] if i == 0 else [0, 1])] for i in range(n)]
    ids = [inp.text("id%d" % i, [1]) for i in range(job["count"])]
    iso = inp.choice("isolating", job["isos"])
    given = job["given"]
    functions = [None, {}, {"F": fun}, {"NUMBER": num, "F": fun}][given]
    kept = (list(locales), list(ids), dict(functions) if functions is not None else None)
    loader = Loader(inp, job, log)
    if how == "class":
        l10n = FluentLocalization(locales, ids, loader, use_isolating=iso, bundle_class=Own, functions=functions)
        E.tag("own class")
    elif how == "maker":
        l10n = Maker(locales, ids, loader, use_isolating=iso, functions=functions)
        E.tag("own maker")
    else:
        l10n = Bundles(locales, ids, None, use_isolating=iso, bundle_class=Own, functions=functions)
        E.tag("own bundles")
    FSI, PDI = ("\u2068", "\u2069") if iso else ("", "")
    shown = [FSI + ("fun" if given > 1 else "F()") + PDI, FSI + ("num" if given == 3 else "1") + PDI, FSI + "v" + PDI]
    for turn in range(job["turns"]):
        asked = inp.text("asked%d" % turn, [[1, "abc"]])
        text = l10n.format_value(asked, {"x": "v"})
        if how == "bundles":
            E.check(text == ("own " + " ".join(shown) if asked == "a" else asked), "another message is shown")
            E.check(Own.made[-1].locales == kept[0], "the bundle got other locales")
            E.check(log["asked"] == [], "a loader was asked although the bundles are found otherwise")
            continue
        want = None
        for nth, got in log["yielded"]:
            for name, body in got:
                if want is None and name == asked:
                    want = body
                    E.tag("later locale" if nth else "found")
        if want is None:
            E.tag("missing")
            E.check(len(log["asked"]) == n, "a message is missing although not every locale was tried")
        E.check(text == (want + " " + " ".join(shown) if want is not None else asked), "another message is shown")
        E.observe(text)
    E.check(len(Own.made) == (job["turns"] if how == "bundles" else len(log["yielded"])), "not one bundle for each list of resources")
    for k, (locale, names) in enumerate(log["asked"]):
        E.check(locale == locales[k], "the loader is not asked for the locales in order")
        E.check(names == ids, "the loader is asked for other resources")
    for b, (nth, got) in zip(Own.made, log["yielded"]):
        E.check(type(b) is Own, "a bundle of another class")
        E.check(list(b.locales) == kept[0][nth:], "a bundle got other locales")
        E.check(b.use_isolating is iso or b.use_isolating == iso, "a bundle got another isolation")
        E.check(b.added == len(got), "a bundle got other resources")
        if len([x for x in log["yielded"] if x[0] == nth]) > 1:
            E.tag("two places")
    E.check(locales == kept[0] and ids == kept[1], "the lists given were changed")
    E.check(functions == kept[2], "the functions given were changed")
    E.check(l10n.locales == kept[0] and l10n.resource_ids == kept[1], "the localization tells other locales or resources")
