"""C14 clone gives an equal, independent tree; equals holds exactly for the same content."""
from fluent.syntax import ast, parse
from spec import snippets, tree

ID = "C14"
MAX_STEPS = 2000000
EXPECT = ["equal", "different"]
BOUNDS = ("pairs (snippet, same snippet with each position replaced by 1 (thorough 2) or extended by 1 arbitrary code "
          "points), and every pair of strings of up to 2 (thorough 3) code points; "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    out = []
    specs = [(1, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2)]
    for name in snippets.ALL:
        for drop, free in specs:
            for pos in range(0, len(snippets.ALL[name]) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "base": snippets.ALL[name],
                            "parts": snippets.window(snippets.ALL[name], pos, drop, free)})
    n = 2 if tier == "quick" else 3
    for i in range(n + 1):
        for j in range(n + 1):
            out.append({"name": "pair%d-%d" % (i, j), "other": ["a=", [i, "bc {}1\n"]], "parts": ["a=", [j, "bc {}1\n"]]})
    for j in snippets.big(4 if tier == "quick" else 40):
        out.append({"name": j["name"], "base": snippets.BIG[j["name"][4:].split(":")[0]], "parts": j["parts"]})
    return out


def damage(n):
    """Change every part of a tree."""
    for f in sorted(vars(n)):
        v = getattr(n, f)
        if tree.is_node(v):
            damage(v)
        elif isinstance(v, list):
            for x in v:
                if tree.is_node(x):
                    damage(x)
            v.append("extra")
            v.reverse()
        elif isinstance(v, bool):
            setattr(n, f, not v)
        elif isinstance(v, str):
            setattr(n, f, v + "!")
        elif isinstance(v, int):
            setattr(n, f, v + 1)


def no_comments(t):
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], list):
        return (t[0], [(f, no_comments(v)) for f, v in t[1] if f != "comment" and f != "span"])
    if isinstance(t, list):
        return [no_comments(x) for x in t]
    return t


def holders(E, inp):
    """Nodes, lists and pairs held in the arguments of an annotation."""
    i, j, k = ast.Identifier("i"), ast.Identifier("j"), ast.Identifier("k")
    x = [None, "x", 1, ast.Identifier("l")][inp.choice("argument", [0, 1, 2, 3])]
    n = ast.Annotation("E", [(x, i), (j, x), [x, k], ((x, i),), (), []], "m", span=ast.Span(0, 1))
    before = tree.plain(n)
    c = n.clone()
    tree.same(E, tree.plain(c), before, "clone differs from the original annotation")
    a, b = c.arguments, n.arguments
    E.check(a is not b and a[2] is not b[2] and a[5] is not b[5], "clone shares a list with the original")
    E.check(isinstance(a[0], tuple) and isinstance(a[3], tuple), "clone turns a pair into something else")
    pairs = [(a[0][1], b[0][1]), (a[1][0], b[1][0]), (a[2][1], b[2][1]), (a[3][0][1], b[3][0][1]), (c.span, n.span)]
    if tree.is_node(x):
        pairs += [(a[0][0], x), (a[1][1], x), (a[2][0], x), (a[3][0][0], x)]
    for p, q in pairs:
        E.check(type(p) is type(q) and p is not q, "clone shares a node with the original")


def fields(E, inp):
    """Nodes that have more or fewer fields than others of their kind."""
    a, b = ast.Identifier("x", span=ast.Span(0, 1)), ast.Identifier("x", span=ast.Span(0, 1))
    p, q = ast.Placeable(a), ast.Placeable(b)
    if inp.bool("more"):
        b.extra = [1]
        drop = "extra"
    else:
        del b.span
        drop = "span"
    for x, y in ((a, b), (b, a), (p, q), (q, p)):
        E.check(x.equals(y, []) is False, "nodes with other fields are equal")
        E.check(x.equals(y, [drop]) is True, "an ignored field makes nodes different")
        E.check(x.equals(y) is (drop == "span"), "equals disagrees with the fields")


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    other = inp.text("other", job["other"]) if "other" in job else job["base"]
    a = parse(s)
    b = parse(other)
    before = tree.plain(a)
    c = a.clone()
    E.check(type(c) is ast.Resource and c is not a, "clone is not a new resource")
    tree.same(E, tree.plain(c), before, "clone differs from the original")
    E.check(a.equals(c) and c.equals(a) and a.equals(c, ignored_fields=[]), "clone is not equal to the original")
    originals = tree.nodes(a)
    for n in tree.nodes(c):
        for m in originals:
            E.check(n is not m, "clone shares a node with the original")
    same = bool(tree.matches(tree.plain(a, False), tree.plain(b, False)))
    E.tag("equal" if same else "different")
    E.check(bool(a.equals(b)) == same, "equals disagrees with the content")
    E.check(bool(b.equals(a)) == same, "equals is not symmetric")
    exact = bool(tree.matches(before, tree.plain(b)))
    E.check(bool(a.equals(b, ignored_fields=[])) == exact, "equals with no ignored fields disagrees with content and spans")
    loose = bool(tree.matches(no_comments(tree.plain(a)), no_comments(tree.plain(b))))
    E.check(bool(a.equals(b, ignored_fields=["span", "comment"])) == loose, "equals ignoring comments disagrees")
    for x in a.body:
        for y in b.body:
            want = bool(tree.matches(tree.plain(x, False), tree.plain(y, False)))
            E.check(bool(x.equals(y)) == want, "entry equals disagrees with the content")
    holders(E, inp)
    fields(E, inp)
    damage(c)
    tree.same(E, tree.plain(a), before, "changing the clone changes the original")
    E.observe([same, exact, loose])
