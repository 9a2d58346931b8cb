"""C01 parsing always answers: parse, parse_entry and the parser stream never raise."""
from fluent.syntax import ast, parse
from fluent.syntax.parser import FluentParser
from spec import snippets

ID = "C01"
ENTRIES = (ast.Message, ast.Term, ast.Comment, ast.GroupComment, ast.ResourceComment, ast.Junk)
EXPECT = ["Message", "Junk", "Comment"]
BOUNDS = ("every string of up to 5 (quick) / 6 (thorough) arbitrary code points; every base snippet with each position "
          "replaced by 1..2 (thorough 3) or extended by 1 (thorough 2) arbitrary code points, or "
          "cut off there and continued by 0..1 (thorough 2); two places at once opened to 1 each (every 8th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    if tier == "quick":
        return snippets.free(5) + snippets.big() + snippets.pairs(snippets.ALL, 8) + snippets.prefixes(snippets.ALL) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)]) \
            + snippets.windows(snippets.EXPRESSIONS, [(2, 2)], stride=2)
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.prefixes(snippets.ALL, 2) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2), (0, 2), (5, 2)]) \
        + snippets.windows(snippets.ENTRIES, [(3, 3)])


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    r = parse(s)
    E.check(type(r) is ast.Resource, "parse did not return a Resource")
    for e in r.body:
        E.check(isinstance(e, ENTRIES), "unknown kind of entry")
        E.tag(type(e).__name__)
    one = FluentParser().parse_entry(s)
    E.check(isinstance(one, ENTRIES), "parse_entry returned an unknown kind of entry")
    bare = parse(s, with_spans=False)
    E.check(len(bare.body) == len(r.body), "with_spans changes the number of entries")
    E.observe(r.to_json())
