"""C28 formatting is repeatable: it changes neither arguments, resources nor later results."""
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_date, fluent_number
from datetime import datetime
from spec import grammar, snippets

ID = "C28"
EXPECT = ["clean", "errors"]
BASES = {
    "refs": "m = {$n} {a}{-t(x: 2)}{b.c}\na = {-t}{$s}\n-t = {$x}|\nb =\n .c = {a}{z}\n",
    "sel": "m = {NUMBER($n, type: \"ordinal\") ->\n [1] a {$s}\n [two] {$q}\n *[few] {m}\n}\n",
    "num": "m = {NUMBER($n, minimumFractionDigits: 1)} {$n}{NUMBER($n, style: \"percent\")}\n .a = {NUMBER($o)}{$c}\n .b = {$g}\n",
    "kinds": "m = {NUMBER($n, type: \"ordinal\") ->\n [one] a\n [two] b\n [few] c\n *[x] d\n}\nn = {$n ->\n [one] e\n *[x] f\n}\n",
    "lit": "m = {\"\\u0041\"}{\"a\"} {1.50}\na = {\"x\"}\nb = {F($s, k: 1)}{-t(y: \"q\")}\n-t = {$y}{G()}\n",
}
PROBE = "p = {$n} {NUMBER($n, style: \"percent\")}\nc = {$n}\n"
BOUNDS = ("4 resources with each position replaced by 1 (thorough also extended by 1) arbitrary code point; every message formatted, "
          "in a bundle without and one with isolation sharing the resource, three times with other formattings in between; integer "
          "arguments 0..30, any string of 1 code point, numbers and dates with options, missing arguments")


def jobs(tier):
    out = []
    for name in BASES:
        out.append({"name": name, "parts": [BASES[name]]})
        for drop, free in [(1, 1)] if tier == "quick" else [(1, 1), (0, 1)]:
            for pos in range(0, len(BASES[name]) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "parts": snippets.window(BASES[name], pos, drop, free)})
    return out


def f(s, k=0):
    return s


def boom():
    raise OSError("g")


def shown(errors):
    return [(type(e).__name__, str(e)) for e in errors]


def patterns(b, res):
    out = []
    seen = []
    for e in res.body:
        if type(e).__name__ == "Message" and e.id.name not in seen:
            seen.append(e.id.name)
            m = b.get_message(e.id.name)
            if m.value is not None:
                out.append(m.value)
            for k in m.attributes:
                out.append(m.attributes[k])
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    n, t = inp.int("n", 0, 30), inp.text("s", [1])
    opt = fluent_number(7, minimumIntegerDigits=3, useGrouping=False)
    day = fluent_date(datetime(2020, 2, 3), dateStyle="short")
    cur = fluent_number(5, style="currency", currency="USD", currencyDisplay="code", maximumFractionDigits=0)
    flat = fluent_number(0.5, style="percent", useGrouping=False, maximumSignificantDigits=2)
    args = {"n": n, "s": t, "o": opt, "q": day, "c": cur, "g": flat}
    other = {"n": 1, "x": "external", "s": opt}
    res = FluentResource(s)
    before = grammar.dump(res.body)
    b = FluentBundle(["en-US"], functions={"F": f, "G": boom}, use_isolating=False)
    c = FluentBundle(["pl"], functions={"F": boom}, use_isolating=True)
    b.add_resource(res)
    c.add_resource(res)
    first = []
    for p in patterns(b, res):
        text, errors = b.format_pattern(p, args)
        first.append((text, shown(errors)))
        E.observe(text)
        E.tag("errors" if errors else "clean")
    for i in range(len(first)):
        fresh = FluentBundle(["en-US"], functions={"F": f, "G": boom}, use_isolating=False)
        fresh.add_resource(res)
        p = patterns(fresh, res)[i]
        bare, none = fresh.format_pattern(p)
        for few in ({"n": n}, {"s": t}, {"n": n, "c": cur}, {}):
            fresh.format_pattern(p, few)
        text, errors = fresh.format_pattern(p)
        E.check(text == bare and shown(errors) == shown(none), "arguments of earlier formattings are used")
        text, errors = fresh.format_pattern(p, args)
        E.check(text == first[i][0], "what was formatted before changes a text")
        E.check(shown(errors) == first[i][1], "what was formatted before changes the errors")
    for p in patterns(c, res):
        c.format_pattern(p, other)
    for p in patterns(b, res):
        b.format_pattern(p, other)
        b.format_pattern(p)
    i = 0
    for p in patterns(b, res):
        text, errors = b.format_pattern(p, args)
        E.check(text == first[i][0], "formatting again gives another text")
        E.check(shown(errors) == first[i][1], "formatting again gives other errors")
        i += 1
    E.check(len(args) == 6 and args["o"] is opt and args["q"] is day, "the arguments were changed")
    E.check(args["c"] is cur and args["g"] is flat, "the arguments were changed")
    E.check(args["n"] == n and args["s"] == t, "the arguments were changed")
    E.check(len(other) == 3 and other["s"] is opt and other["x"] == "external", "the arguments were changed")
    E.check(opt.options.minimumIntegerDigits == 3 and opt.options.minimumFractionDigits is None
            and opt.options.style == "decimal", "the options of an argument were changed")
    E.check(day.options.dateStyle == "short" and day.options.timeStyle is None, "the options of an argument were changed")
    E.check(grammar.dump(res.body) == before, "formatting changed the resource")
    # what the locale itself prescribes is as ever
    plain = FluentBundle(["en-US"], use_isolating=False)
    plain.add_resource(FluentResource(PROBE))
    E.check(plain.format_pattern(plain.get_message("p").value, {"n": 12345.25})[0] == "12,345.25 1,234,525%",
            "formatting changed the locale's own formats")
    E.check(plain.format_pattern(plain.get_message("c").value, {"n": fluent_number(12345, style="currency", currency="USD")})[0]
            == "$12,345.00", "formatting changed the locale's own formats")
    fresh = fluent_number(7)
    E.check(fresh.options.minimumIntegerDigits is None and fresh.options.style == "decimal", "the default options were changed")
