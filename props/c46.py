"""C46 what is shown survives reformatting: serialized, JSON and cloned resources format like the original."""
from fluent.runtime import FluentBundle
from fluent.syntax import ast, parse, serialize
from spec import snippets
from props.c10 import lone_cr

ID = "C46"
EXPECT = ["text", "error", "multiline", "attribute"]
BASES = {
    "refs": "m = {$n} {a}{-t(x: 2)}{b.c}\na = {-t}{$s}\n-t = {$x}|\nb =\n .c = {a}{z}\n",
    "sel": "m = {NUMBER($n, type: \"ordinal\") ->\n [1] a {$s}\n [two] {$q}\n *[few] {m}\n}\n",
    "multi": "m = a\n   b\n\n  {$s} c\n    {\" \"}\n .x =\n   {$n ->\n  [0] d\n    e\n *[o]\n   {\"\\u007B\"}{{-1.50}}\n }\n",
    "lit": "m = {\"\\u0041\\\"\"}{\" a\"} {1.50}{-02}\na = {\"[\"}x\n  .\nb = {F($s, k: 1)}{-t(y: \"q\")}{G()}\n-t = {$y}\n",
    "nest": "m = {{{$s}}}{ {{a}} }\na = {{{{-t(x: 1)}}}}\n-t = {{\"{\"}}{{$x ->\n *[o] {{{1}}}\n}}\n",
    "comm": "# c\nm = {a}\n## g\n\na =\n .b = {m} {$n}\n c\n-m = {a.b}\n",
}
BOUNDS = ("6 resources with each position replaced or extended by 1 (thorough 2) arbitrary code point, and every text of 3 (thorough 4) arbitrary code "
          "points as a value, an attribute or a line of a value; an integer argument 0..2 and a string argument of 1 code point; "
          "texts of which a line ends in a carriage return on its own are left out (the known finding of C10)")


def jobs(tier):
    out = []
    for name in BASES:
        for drop, free in [(1, 1), (0, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2), (0, 2)]:
            for pos in range(0, len(BASES[name]) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "parts": snippets.window(BASES[name], pos, drop, free)})
    n = 3 if tier == "quick" else 4
    for name, parts in (("value", ["m = ", n, "\n"]), ("line", ["m =\n  x\n ", n, "\n   y\n"]), ("attr", ["m =\n .a =\n  ", n, "z\n"]),
                        ("quote", ["m = {\"", n, "\"}\n"]), ("open", ["m = ", n])):
        out.append({"name": name, "parts": parts})
    return out


def f(s, k=0):
    return s


def show(res, args):
    """Everything the messages of a resource show."""
    b = FluentBundle(["en-US"], functions={"F": f}, use_isolating=True)
    b.add_resource(res)
    out = []
    seen = []
    for e in res.body:
        if not isinstance(e, ast.Message) or e.id.name in seen:
            continue
        seen.append(e.id.name)
        m = b.get_message(e.id.name)
        if m.value is not None:
            out.append((e.id.name, "") + both(b, m.value, args))
        for k in m.attributes:
            out.append((e.id.name, k) + both(b, m.attributes[k], args))
    return out


def both(b, p, args):
    text, errors = b.format_pattern(p, args)
    return text, [(type(x).__name__, str(x)) for x in errors]


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    E.assume(not lone_cr(s))
    args = {"n": inp.int("n", 0, 2), "s": inp.text("s", [1])}
    first = parse(s)
    want = show(first, args)
    for name, key, text, errors in want:
        E.tag("error" if errors else "multiline" if "\n" in text else "attribute" if key else "text")
        E.observe(text)
    for what, res in (("serialized", parse(serialize(first))), ("JSON", ast.from_json(first.to_json())), ("cloned", first.clone())):
        got = show(res, args)
        E.check(len(got) == len(want), "a message is lost or made: " + what)
        for g, w in zip(got, want):
            E.check(g[0] == w[0] and g[1] == w[1], "other messages: " + what)
            E.check(g[2] == w[2], "another text is shown: " + what)
            E.check(g[3] == w[3], "other errors are reported: " + what)
