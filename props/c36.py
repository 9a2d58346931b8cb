"""C36 the resource loader reads exactly the files that exist, as written, in order."""
from fluent.runtime import FluentLocalization, FluentResourceLoader
from fluent.syntax import FluentParser
from spec import grammar

ID = "C36"
EXPECT = ["loaded", "nothing", "partial", "localized"]
UTF8 = [[0, 0xD7FF], [0xE000, 0x10FFFF]]
LAYOUTS = {
    "one": ("{locale}", ["a.ftl", "b.ftl"]), "id": ("", ["{locale}/a.ftl", "b.{locale}.ftl"]), "sub": ("l10n/{locale}/x", ["a.ftl", "d/b.ftl"]),
    "list": (["r1/{locale}", "r2/{locale}"], ["a.ftl", "b.ftl"]), "deep": (["p/{locale}/q", "{locale}"], ["{locale}-a.ftl", "s/b.ftl"]),
    "three": ("{locale}", ["a.ftl", "b.ftl", "c.ftl"]), "plain": (["x"], ["a.ftl"]), "back": (["r2/{locale}", "r1/{locale}"], ["b.ftl", "a.ftl"]),
}
BOUNDS = ("8 layouts of roots and resource ids with and without {locale} in either, every subset of their files for 2 locales (or directories in their place), some holding "
          "a line end of any kind, or nothing at all; or one of the files holding a message around any 2 (thorough 3) characters, or any 3 (thorough 4) characters, that UTF-8 can "
          "hold (line ends of all kinds, byte order mark); the loader asked twice and for both locales, and a localization using it")


def jobs(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for name in LAYOUTS:
        out.append({"name": name + ":subsets", "layout": name, "parts": ["a = x", [1, "\r\n\ufeff\u2028{"], "y\n"], "free": True})
        out.append({"name": name + ":blank", "layout": name, "parts": [[0, ""]] if name != "three" else [[1, "\n \ufeff"]], "free": True})
    for i, name in enumerate(LAYOUTS):
        for k in range(3):
            if tier == "thorough" or i % 3 == k:
                out.append({"name": "%s:%d" % (name, k), "layout": name, "free": False,
                            "parts": [["a = x", [n, UTF8], "y\n"], ["# c", [1, UTF8], "\na = b\n"], [[n + 1, UTF8]]][k]})
    return out


def run(E, inp, job):
    roots, ids = LAYOUTS[job["layout"]]
    rootlist = [roots] if isinstance(roots, str) else roots
    files = {}
    free = inp.text("content", job["parts"])
    k = 0
    for loc in ("de", "en-US"):
        for r in rootlist:
            for i in ids:
                path = (r + "/" + i if r else i).replace("{locale}", loc)
                if path in files:
                    continue
                k += 1
                if not job["free"] and k % 4 == 2:
                    files[path + "/x"] = "dir = x\n"        # a directory of that name
                if not job["free"] and k % 2 or job["free"] and inp.bool("has " + path):
                    files[path] = free if k == 1 or k == 5 else "m%d = v%d\n" % (k, k)
    base = E.files(files)
    given = [base + "/" + r if r else base for r in rootlist]
    loader = FluentResourceLoader(given[0] if isinstance(roots, str) else given)
    for turn, loc in (("first", "en-US"), ("second", "de"), ("third", "en-US")):
        got = list(loader.resources(loc, ids))
        want = []
        for r in rootlist:
            texts = []
            for i in ids:
                path = (r + "/" + i if r else i).replace("{locale}", loc)
                if path in files:
                    texts.append(files[path])
            if texts:
                want.append(texts)
            if texts and len(texts) < len(ids):
                E.tag("partial")
        E.check(len(got) == len(want), "another number of places offer resources")
        for g, w in zip(got, want):
            E.check(len(g) == len(w), "another number of resources")
            for res, text in zip(g, w):
                E.check(res.equals(FluentParser().parse(text)), "a resource is not what its file holds")
        E.tag("loaded" if want else "nothing")
    l10n = FluentLocalization(["en-US", "de"], ids, loader)
    got = l10n.format_value("m2")
    has = [f for f in files.values() if isinstance(f, str) and f == "m2 = v2\n"]
    E.check(got == ("v2" if has else "m2"), "the localization does not show what a file holds")
    E.tag("localized")
