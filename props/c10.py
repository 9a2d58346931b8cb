"""C10 serializing a parsed resource and parsing it again gives the same resource."""
from fluent.syntax import ast, parse, serialize
from fluent.syntax.serializer import FluentSerializer
from spec import grammar, snippets

ID = "C10"
EXPECT = ["Message", "Term", "Comment", "junk-dropped", "multiline"]
BOUNDS = ("every string of up to 5 (thorough 6) arbitrary code points; every snippet with each position replaced by 1..2 or "
          "extended by 1 (thorough 2) arbitrary code points; "
          "two places at once opened to 1 each (every 9th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    if tier == "quick":
        return snippets.free(5) + snippets.big() + snippets.pairs(snippets.ALL, 9) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)]) \
            + snippets.windows(snippets.PATTERNS, [(2, 2)])
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2), (0, 2)]) \
        + snippets.windows(snippets.PATTERNS, [(3, 3)])


def lone_cr(s):
    """Some line ends in a carriage return (spaces aside) that is not part of its CRLF line break."""
    for line in s.replace("\r\n", "\n").split("\n"):
        if line.rstrip(" ").endswith("\r"):
            return True
    return False


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    first = parse(s)
    want = grammar.dump([e for e in first.body if not isinstance(e, ast.Junk)])
    if lone_cr(s):
        E.known("lone-cr")
    text = serialize(first)
    again = parse(text)
    got = grammar.dump(again.body)
    for e in want:
        E.tag(e[0])
        if e[0] == "Message" and e[2] and e[2][0][0] == "Text" and "\n" in e[2][0][1]:
            E.tag("multiline")
    if len(want) != len(first.body):
        E.tag("junk-dropped")
    grammar.compare(E, got, want, "re-parsed body")
    E.check(serialize(again) == text, "serializing again gives a different text")
    for e in first.body:
        if isinstance(e, (ast.Message, ast.Term)):
            one = FluentSerializer().serialize_entry(e)
            back = grammar.dump(parse(one).body)
            E.check(len(back) == 1, "a serialized entry is not one entry")
            grammar.compare(E, back[0], grammar.dump_entry(e), "re-parsed entry")
    E.observe(text)
