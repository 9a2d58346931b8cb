"""C17 parse_entry returns the first entry after any comments, as parse sees it."""
from fluent.syntax import ast, parse
from fluent.syntax.parser import FluentParser
from spec import grammar, snippets

ID = "C17"
EXPECT = ["Message", "Term", "Junk", "none", "after-comment"]
BOUNDS = ("every string of up to 5 (thorough 6) arbitrary code points; comment and entry snippets with each position "
          "replaced by 1..2 or extended by 1 arbitrary code points; "
          "any snippet cut off anywhere and continued by 0..1 arbitrary code points (thorough 2); two places at once opened to 1 each (every 8th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    g = dict(snippets.COMMENTS)
    g.update(snippets.ENTRIES)
    if tier == "quick":
        return snippets.free(5) + snippets.big() + snippets.pairs(snippets.ALL, 8) + snippets.prefixes(snippets.ALL) + snippets.windows(g, [(1, 1), (0, 1), (2, 2)])
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.prefixes(snippets.ALL, 2) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2)]) + snippets.windows(g, [(0, 2), (3, 3)])


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    one = FluentParser().parse_entry(s)
    first = None
    for e in parse(s).body:
        if isinstance(e, (ast.Message, ast.Term)) and e.comment is not None:
            E.tag("after-comment")
        if not isinstance(e, ast.BaseComment):
            first = e
            break
        E.tag("after-comment")
    if first is None:
        E.tag("none")
        E.check(isinstance(one, ast.Junk) and one.content == "", "parse_entry found an entry where there is none")
        E.check(one.annotations[0].code == "E0002", "wrong error for a missing entry")
        return
    a = grammar.dump_entry(one)
    b = grammar.dump_entry(first)
    E.tag(b[0])
    if b[0] in ("Message", "Term"):
        b = b[:4] + (None,)
        E.check(one.id.span.start == first.id.span.start and one.span.end == first.span.end, "entry is elsewhere")
    else:
        E.check(one.span.start == first.span.start and one.span.end == first.span.end, "junk is elsewhere")
        E.check([n.code for n in one.annotations] == [n.code for n in first.annotations], "different error")
    grammar.compare(E, a, b, "entry")
    bare = grammar.dump_entry(FluentParser(with_spans=False).parse_entry(s))
    grammar.compare(E, bare, a, "entry without spans")
    E.observe(a)
