"""C02 no source text is lost: entries tile the source, Junk is verbatim and annotated."""
from fluent.syntax import ast, parse
from spec import snippets

ID = "C02"
EXPECT = ["junk", "gap"]
BOUNDS = ("every string of up to 5 (quick) / 7 (thorough) arbitrary code points; every entry/comment snippet with each "
          "position replaced by 1..2 or extended by 1..2 arbitrary code points; "
          "any snippet cut off anywhere and continued by 0..1 arbitrary code points (thorough 2); two places at once opened to 1 each (every 7th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    if tier == "quick":
        return snippets.free(5) + snippets.big() + snippets.pairs(snippets.ALL, 7) + snippets.prefixes(snippets.ALL) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)]) \
            + snippets.windows(snippets.ENTRIES, [(2, 2)])
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.prefixes(snippets.ALL, 2) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2), (0, 2), (4, 2)]) \
        + snippets.windows(snippets.ENTRIES, [(3, 3)])


def blank_gap(E, s, a, b):
    """s[a:b] holds only spaces and line breaks."""
    for p in range(a, b):
        c = s[p]
        E.tag("gap")
        if c == "\r":
            E.check(p + 1 < len(s) and s[p + 1] == "\n", "text dropped between entries (lone CR)")
        else:
            E.check(c == " " or c == "\n", "text dropped between entries")


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    r = parse(s)
    E.check(r.span.start == 0 and r.span.end == len(s), "the resource does not span the whole source")
    pos = 0
    last = None
    for e in r.body:
        E.check(e.span is not None, "entry without a span")
        a, b = e.span.start, e.span.end
        E.check(pos <= a and a < b and b <= len(s), "entry spans overlap or are empty")
        blank_gap(E, s, pos, a)
        if isinstance(e, ast.Junk):
            E.tag("junk")
            E.check(e.content == s[a:b], "Junk content is not the source text")
            E.check(len(e.annotations) > 0, "Junk without annotation")
            for n in e.annotations:
                E.check(isinstance(n.code, str) and n.code[:2] == "E0" and len(n.code) == 5, "bad error code")
                E.check(isinstance(n.message, str) and len(n.message) > 0 and n.message != n.code, "bad message")
                E.check(a <= n.span.start and n.span.start <= n.span.end and n.span.end <= b,
                        "annotation outside its Junk")
        pos = b
        last = e
    blank_gap(E, s, pos, len(s))
    if not r.body:
        E.check(pos == 0, "lost text")
    E.observe([(type(e).__name__, e.span.start, e.span.end) for e in r.body])
