"""C34 a localization shows the first locale that has the message, and the identifier when none has."""
from fluent.runtime import AbstractResourceLoader, FluentBundle, FluentLocalization, FluentResource

ID = "C34"
EXPECT = ["first", "later", "second root", "missing", "value-less", "shadowed", "shown as nothing", "shown as cycle", "shown as name"]
MAX_STEPS = 2000000
BOUNDS = ("1..3 locales, each with 0..2 places offering any subset of 2 resource files (thorough 3), each with a message of any of 3 "
          "names, with a value, a value that looks like none (nothing, a space, a cycle, a missing reference, its own name), or only an attribute, and a private term; every name of 1 or 2 of 4 characters asked for, with and "
          "without arguments, isolation and custom functions")
LOCALES = ["de", "en-US", "pl"]
POINT = {"de": "1,5", "en-US": "1.5", "pl": "1,5"}
FORM = {"de": "other", "en-US": "other", "pl": "few"}        # of 2


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for roots in ((0, 1, 2) if n == 1 else (1,) if n == 3 else (1, 2)):
            for files in (1, 2) if tier == "quick" else (1, 2, 3):
                if n * roots * files > (4 if tier == "quick" else 6):
                    continue
                for first in range(n):
                    out.append({"name": "%d:%d:%d:%d" % (n, roots, files, first), "n": n, "roots": roots, "files": files,
                                "first": first, "wide": n * roots * files <= 2, "odd": None})
                    if n * roots * files <= 3 and not first:
                        for odd in ODD:
                            out.append({"name": "%d:%d:%d:%s" % (n, roots, files, odd), "n": n, "roots": roots, "files": files,
                                        "first": first, "wide": False, "odd": odd})
    return out


ODD = ["nothing", "space", "cycle", "limit", "missing", "name", "part"]


def text(loc, root, k, odd, name):
    """A message with a value of its own place, or one that looks as if it were none (and may report an error)."""
    if odd is not None and k == 0:
        return {"nothing": '{$gone ->\n *[x] {""}\n }{""}', "space": '{" "}', "cycle": "{" + name + "}",
                "limit": '{"{???}"}', "missing": "{nosuch}", "name": name, "part": "{$nosuch}"}[odd]
    return loc + str(root) + str(k) + "={NUMBER($n, minimumFractionDigits: 1)}{-t}{$c ->\n  [few] few\n *[other] other\n }{F()}"


class Loader(AbstractResourceLoader):
    def __init__(self, inp, job, made):
        self.inp, self.job, self.made, self.asked = inp, job, made, []

    def resources(self, locale, resource_ids):
        for root in range(self.job["roots"]):
            got = []
            self.asked.append((locale, root))
            for k, rid in enumerate(resource_ids):
                tag = locale + str(root) + str(k)
                if not self.inp.bool(tag + "?"):
                    continue
                name = self.inp.text(tag, [[1, "abc"]])
                value = self.inp.bool(tag + "!")
                src = name + " =" + (" " + text(locale, root, k, self.job["odd"], name) if value else "") + "\n .x = attr\n-t = (" + rid + ")\n"
                self.made.append((locale, root, rid, name, value))
                got.append(FluentResource(src))
            if got:
                yield got


def f():
    return "fun"


def run(E, inp, job):
    n = job["n"]
    locales = [LOCALES[(i + job["first"]) % 3] for i in range(n)]
    ids = ["one.ftl", "two.ftl", "three.ftl"][:job["files"]]
    made = []
    wide = job["wide"]
    iso = inp.bool("isolating") if wide else False
    loader = Loader(inp, job, made)
    l10n = FluentLocalization(locales, ids, loader, use_isolating=iso, functions={"F": f})
    asked = inp.text("asked", [[1, "abcd"]]) if inp.bool("short") else inp.text("asked2", [[2, "ab.-"]])
    given = inp.bool("args") if wide else True
    got = l10n.format_value(asked, {"n": 1.5, "c": 2}) if given else l10n.format_value(asked)
    want = None
    order = []
    for e in made:                      # in the order they were loaded in
        if (e[0], e[1]) not in order:
            order.append((e[0], e[1]))
    for at in order:
        entries = [e for e in made if (e[0], e[1]) == at]
        hits = [e for e in entries if e[3] == asked]
        if not hits:
            continue
        if len(hits) > 1:
            E.tag("shadowed")
        if not hits[0][4]:
            E.tag("value-less")
            continue
        want = (hits[0], entries[0][2])
        E.tag("first" if at == (locales[0], 0) else "second root" if at[1] else "later")
        break
    if want is None:
        E.check(got == asked, "a missing message is not shown as its identifier")
        E.check(len(loader.asked) == n * job["roots"], "a message is missing although places were not tried")
        E.tag("missing")
    else:
        loc, root, rid = want[0][0], want[0][1], want[0][2]
        FSI, PDI = ("\u2068", "\u2069") if iso else ("", "")
        parts = [POINT[loc] if given else "n", None, FORM[loc] if given else "other", "fun"]
        text_ = loc + str(root) + str(ids.index(rid)) + "=" + FSI + parts[0] + PDI + FSI + "(" + want[1] + ")" \
            + PDI + FSI + parts[2] + PDI + FSI + "fun" + PDI
        if job["odd"] is not None and ids.index(rid) == 0:
            text_ = {"nothing": "", "space": " ", "cycle": "???", "limit": "{???}", "missing": "{nosuch}", "name": asked, "part": "nosuch"}[job["odd"]]
            E.tag("shown as " + job["odd"])
        E.check(got == text_, "a message is shown otherwise")
    last = 0
    for e in made:
        k = locales.index(e[0])
        E.check(k >= last, "locales are not tried in order")
        last = k
    E.observe(got)
