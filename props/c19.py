"""C19 parsing, serializing and visiting keep nothing from one call to the next."""
from fluent.syntax import ast, parse, serialize
from fluent.syntax.parser import FluentParser
from fluent.syntax.serializer import FluentSerializer
from fluent.syntax.visitor import Visitor
from spec import snippets, tree

ID = "C19"
MAX_STEPS = 6000000
EXPECT = ["parsed", "single", "written", "written-junk", "walked", "refused", "same-text", "often"]
BOUNDS = ("one parser, serializer and visitor object, with and without spans, and every choice of what was done with it "
          "before: first with a text of up to 2 arbitrary code points or a snippet with a position opened to 1, then with one of "
          "4 texts; or with one of 4 texts and then with a text of up to 2 arbitrary code points or with 1 opened position; or 150 times with a snippet cut off at a position and followed by 1 code point")
OPS = ["parse", "entry", "write", "write-entry", "walk", "refuse"]
FIXED = {
    "msg": "a =\n  b\n   {c.d}\n .e = {\"\\u0041\"}\n",
    "junk": "a = {\nb = c\n### r\n",
    "sel": "# c\na = {$x ->\n [1] b\n *[o] c\n }\n",
    "call": "-t = {F(-1.50, x: \"y\")}{-t(a: 1)}\n## g",
}
OPEN = {
    "free": [2],
    "msg": ["a = ", 1, "\n  b\n .c = d\n"],
    "sel": ["a = {$x ->\n *[b", 1, " c\n}\n"],
    "com": ["# c\n", 1, "\na = b"],
}


def jobs(tier):
    q = tier == "quick"
    out = []
    g = snippets.ALL
    for i, t in enumerate(sorted(FIXED)):
        firsts = {k: g[k] for n, k in enumerate(sorted(g)) if not q or n % len(FIXED) == i}
        for w in snippets.free(2) + snippets.windows(firsts, [(1, 1)] if q else [(1, 1), (0, 1)], stride=8 if q else 3):
            out.append({"name": "%s/%s" % (t, w["name"]), "first": w["parts"], "second": [FIXED[t]]})
    for i, k in enumerate(sorted(g)):
        for cut in range(2 + i % 5, len(g[k]), 12 if q else 4):
            out.append({"name": "often:%s@%d" % (k, cut), "first": [g[k][:cut], 1], "second": [FIXED[sorted(FIXED)[i % len(FIXED)]]], "often": 150})
    for t in sorted(FIXED):
        for u in sorted(OPEN):
            out.append({"name": "%s+%s" % (t, u), "first": [FIXED[t]], "second": OPEN[u] if q else OPEN[u] + [1]})
    return out


class Count(Visitor):
    def __init__(self):
        self.seen = []

    def visit_Identifier(self, node):
        self.seen.append(node.name)
        super().generic_visit(node)

    def generic_visit(self, node):
        self.seen.append(type(node).__name__)
        super().generic_visit(node)


def attempt(E, fn, *args):
    try:
        return fn(*args)
    except Exception as e:
        return "raised " + type(e).__name__


def outcome(s):
    """Everything the library says about a text, by objects made for the purpose."""
    r = FluentParser().parse(s)
    bare = FluentParser(with_spans=False).parse(s)
    return (tree.plain(r), tree.plain(bare), tree.plain(FluentParser().parse_entry(s)),
            FluentSerializer().serialize(r), FluentSerializer(with_junk=True).serialize(r))


def run(E, inp, job):
    a = inp.text("first", job["first"])
    b = inp.text("second", job["second"])
    spans = inp.bool("spans")
    want = outcome(b)
    parser = FluentParser(with_spans=spans)
    plain_w = FluentSerializer()
    junk_w = FluentSerializer(with_junk=True)
    walker = Count()
    old = []
    for op in ["often" if "often" in job else inp.choice("op", OPS)]:
        if op == "often":
            E.tag("often")
            for _ in range(job["often"]):
                r = parser.parse(a)
            old.append(r)
            old.append(parser.parse_entry(a))
        elif op == "parse":
            E.tag("parsed")
            old.append(parser.parse(a))
        elif op == "entry":
            E.tag("single")
            old.append(parser.parse_entry(a))
        else:
            r = parser.parse(a)
            old.append(r)
            before = tree.plain(r)
            if op == "write":
                x = plain_w.serialize(r)
                y = junk_w.serialize(r)
                E.tag("written")
                E.check(plain_w.serialize(r) == x and junk_w.serialize(r) == y, "writing again gives another text")
            elif op == "write-entry":
                E.tag("written-junk")
                for e in r.body:
                    for state in (0, 1):
                        x = junk_w.serialize_entry(e, state)
                        E.check(junk_w.serialize_entry(e, state) == x, "writing an entry again gives another text")
            elif op == "walk":
                E.tag("walked")
                walker.visit(r)
            elif op == "refuse":
                E.tag("refused")
                r.body.append(ast.TextElement("x"))
                for w in (plain_w, junk_w):
                    E.check(attempt(E, w.serialize, r) == "raised Exception", "an unknown entry is not refused")
                    E.check(attempt(E, w.serialize, ast.Junk(a)) == "raised Exception", "an unknown resource is not refused")
                r.body.pop()
            tree.same(E, tree.plain(r), before, "the tree was changed by writing or walking it")
    # the used objects now work on the second text as unused ones do
    r = parser.parse(b)
    tree.same(E, tree.plain(r), want[0 if spans else 1], "the tree depends on what was parsed before")
    one = parser.parse_entry(b)
    if spans:
        tree.same(E, tree.plain(one), want[2], "the entry depends on what was parsed before")
    E.check(plain_w.serialize(r) == want[3], "the text depends on what was written before")
    E.check(junk_w.serialize(r) == want[4], "the text with junk depends on what was written before")
    E.check(serialize(parse(b)) == want[3], "parse and serialize depend on what was parsed before")
    walker.seen = []
    walker.visit(r)
    count = 0
    for n in tree.nodes(r):
        count += 1
    E.check(len(walker.seen) == count, "a visitor's walk depends on the one before")
    again = outcome(b)
    tree.same(E, again, want, "fresh objects depend on what was parsed before")
    # trees share no nodes: changing one changes no other
    mine = set()
    for n in tree.nodes(r):
        mine.add(id(n))
    for o in old + [one, parser.parse(b)]:
        E.tag("same-text")
        for n in tree.nodes(o):
            E.check(id(n) not in mine, "two trees share a node")
    E.observe((want[3], want[4]))
