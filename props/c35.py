"""C35 a localization loads lazily, once, and answers the same whatever was asked before."""
from fluent.runtime import AbstractResourceLoader, FluentLocalization, FluentResource

ID = "C35"
EXPECT = ["again", "unloaded", "all loaded", "nested"]
MAX_STEPS = 3000000
BOUNDS = ("every history of 3 (thorough 4; 2 where there are 2 places) requests, each for any name of 1 character out of 4, on localizations of 2..3 locales with "
          "1..2 places whose resources hold a message of any of 3 names, with or without a value, or nothing; requests made while "
          "another message is being formatted; each answer compared with a fresh localization's")
LOCALES = ["en-US", "de", "pl"]


def jobs(tier):
    out = []
    for n, roots in ((2, 1), (3, 1), (2, 2)) if tier == "quick" else ((2, 1), (3, 1), (2, 2), (3, 2), (1, 3)):
        for asks in (2 if roots > 1 else 3,) if tier == "quick" else (3, 4):
            out.append({"name": "plain:%d:%d:%d" % (n, roots, asks), "n": n, "roots": roots, "asks": asks, "nested": False})
        out.append({"name": "nested:%d:%d" % (n, roots), "n": n, "roots": roots, "asks": 2, "nested": True})
    return out


class World:
    """What every place offers, decided when first needed."""

    def __init__(self, inp, job):
        self.inp, self.job, self.made = inp, job, {}

    def at(self, locale, root):
        key = locale + str(root)
        if key not in self.made:
            if self.inp.bool(key + "?"):
                self.made[key] = (self.inp.text(key, [[1, "abc"]]), self.inp.bool(key + "!"))
            else:
                self.made[key] = None
        return self.made[key]

    def source(self, locale, root):
        got = self.at(locale, root)
        if got is None:
            return None
        call = " {F(\"a\")}" if self.job["nested"] else ""
        return got[0] + " =" + (" " + locale + str(root) + call if got[1] else "") + "\n .x = y\n"


class Loader(AbstractResourceLoader):
    def __init__(self, world, log):
        self.world, self.log = world, log

    def resources(self, locale, resource_ids):
        for root in range(self.world.job["roots"]):
            self.log.append(locale + str(root))
            src = self.world.source(locale, root)
            if src is not None:
                yield [FluentResource(src)]


def run(E, inp, job):
    world = World(inp, job)
    locales = LOCALES[:job["n"]]
    log = []
    shared = []
    depth = []

    def nested(name):
        if depth:
            return "-"
        depth.append(1)
        r = shared[0].format_value(name)
        depth.pop()
        E.tag("nested")
        return "<" + r + ">"
    functions = {"F": nested} if job["nested"] else None
    l10n = FluentLocalization(locales, ["f.ftl"], Loader(world, log), functions=functions)
    shared.append(l10n)
    order = [loc + str(r) for loc in locales for r in range(job["roots"])]
    past = []
    needed = 0
    for i in range(job["asks"]):
        name = inp.text("ask%d" % i, [[1, "abcd"]])
        got = l10n.format_value(name)
        E.check(isinstance(got, str), "no text")
        # the places looked at are the first ones, each once
        E.check(log == order[:len(log)], "places are not read once each, in order")
        need = wanted(world, order, name, len(log))
        if job["nested"]:
            need = max(need, wanted(world, order, "a", len(log)))
        else:
            needed = max(needed, need)
            E.check(len(log) == needed, "more or fewer places were read than the requests needed")
            E.tag("all loaded" if len(log) == len(order) else "unloaded")
        for old, text in past:
            if old == name:
                E.check(text == got, "the same request is answered otherwise later")
                E.tag("again")
        past.append((name, got))
    for name, got in past:
        other = []
        fresh = FluentLocalization(locales, ["f.ftl"], Loader(world, other), functions=functions)
        shared[0] = fresh
        E.check(fresh.format_value(name) == got, "the answer depends on what was asked before")
    E.observe([t for _, t in past])


def wanted(world, order, name, read):
    """How many places must be read to answer a request."""
    for k in range(read):
        at = world.made.get(order[k])
        if at is not None and at[1] and at[0] == name:
            return k + 1
    return len(order)
