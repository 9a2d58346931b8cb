"""C47 what a message shows depends only on what it refers to."""
from fluent.runtime import FluentBundle, FluentResource
from fluent.syntax import ast
from spec import snippets

ID = "C47"
EXPECT = ["message", "term", "junk", "comment", "clash", "unrelated"]
BASE = ("m = {$n} {a}{-t(x: 2)}{b.c} {z}{$q}\n .k = {$n ->\n [one] {a}\n *[other] {b.c}\n }\na = {-t}{$s} {1.5}\n-t = {$x}|\n"
        "b =\n .c = {F($s, k: 1)}{H-H()} {NUMBER($n, minimumFractionDigits: 1)}\n")
MESSAGES, TERMS, ARGS = ["m", "a", "b"], ["t"], ["n", "s", "x", "q", "z"]
EXTRAS = {
    "message": [[1, "abmtz"], " = ", 2, "\n"], "names": [[2, "mac-"], " = x\n .k = {m}{a}\n"], "term": ["-", [1, "abmtz"], " = ", 1, "{a}\n .c = b\n"],
    "both": ["k = {", [1, "mabk"], "}{$n}\n-", [1, "txm"], " = {$x}{m.k}\n"], "attrs": [[1, "tkz"], " =\n .c = {m} ", 1, "\n .k = {b.c}\n"],
    "comment": ["#", 2, "\n"], "free": [3], "junk": ["m = {", 1, "\n-t = ", [1, " x\n"], "\n"],
    "cycle": ["k = {", [1, "kj"], "}\nj = {k}", 1, "\n"],
}
BOUNDS = ("one resource of 3 messages and a term, with all kinds of references, some missing; 9 kinds of further entries with free names and 1..3 "
          "free characters, added before or after it, formatted in between or not; a further argument (or only that one) of a 1-character name, also another case of a name used; a further function, some named nearly as one used, and a further "
          "locale; an integer argument 0..3 and a string of 1 code point; further entries that share a name the message looks for are left out")


def jobs(tier):
    out = []
    for name in EXTRAS:
        for when in ("before", "after", "later"):
            out.append({"name": name + ":" + when, "parts": EXTRAS[name], "when": when})
    for when in ("before", "after", "later"):
        out.append({"name": "none:" + when, "parts": EXTRAS["comment"], "when": when, "none": True})
    if tier == "thorough":
        for name in snippets.ALL:
            for pos in range(len(snippets.ALL[name])):
                out.append({"name": "%s@%d" % (name, pos), "parts": snippets.window(snippets.ALL[name], pos, 1, 1), "when": "after"})
    return out


def f(s, k=0):
    return s


def g():
    raise OSError("g")


def show(b, args):
    m = b.get_message("m")
    out = []
    for p in (m.value, m.attributes["k"]):
        text, errors = b.format_pattern(p, args)
        out.append((text, [(type(x).__name__, str(x)) for x in errors]))
    return out


def everything(b, res, args):
    for e in res.body:
        if isinstance(e, ast.Message):
            m = b.get_message(e.id.name)
            for p in [m.value] + list(m.attributes.values()):
                if p is not None:
                    b.format_pattern(p, args)


def run(E, inp, job):
    when = job["when"]
    iso = inp.bool("isolating")
    args = {} if job.get("none") else {"n": inp.int("n", 0, 3), "s": inp.text("s", [1])}
    alone = FluentBundle(["en-US"], functions={"F": f}, use_isolating=iso)
    alone.add_resource(FluentResource(BASE))
    want = show(alone, args)
    extra = FluentResource(inp.text("extra", job["parts"]))
    for e in extra.body:
        if isinstance(e, ast.Message):
            E.tag("message")
            # the name it looks for in vain, and its own names where the first or last one counts
            clash = e.id.name == "z" or when == "before" and e.id.name in MESSAGES
        elif isinstance(e, ast.Term):
            E.tag("term")
            clash = when == "before" and e.id.name in TERMS
        else:
            E.tag("junk" if isinstance(e, ast.Junk) else "comment")
            clash = False
        if clash:
            E.tag("clash")
            return
    E.tag("unrelated")
    other = inp.choice("function", ["G", "H", "H_H", "h-h", "H-H-", "HH", "f", "NUMBER-", "\uff26"]) if job["name"][:7] == "comment" else "H_H"
    b = FluentBundle(["en-US", "pl"], functions={"F": f, other: g}, use_isolating=iso)
    more = dict(args)
    name = inp.text("argument", [[1, "nsxqzmatkNSXQZ-_1\u017f"]])
    if name not in ARGS:
        more[name] = 7
    if when == "before":
        b.add_resource(extra)
    b.add_resource(FluentResource(BASE))
    if when == "after":
        b.add_resource(extra)
    if when == "later":
        show(b, args)
        b.add_resource(extra)
    if when != "before":
        everything(b, extra, {"x": "?", "n": 9})
    got = show(b, more)
    for w, h in zip(want, got):
        E.check(h[0] == w[0], "something else changes what is shown")
        E.check(h[1] == w[1], "something else changes the errors")
    E.observe(want[0][0])
