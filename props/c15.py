"""C15 visitors reach every node once; transformers change exactly what they are told to."""
from fluent.syntax import ast, parse
from fluent.syntax.visitor import Transformer, Visitor
from spec import snippets, tree

ID = "C15"
KINDS = ["TextElement", "Placeable", "Identifier", "Variant", "Attribute", "StringLiteral", "Junk", "Comment", "Message", "Span", "Pattern"]
EXPECT = ["dropped", "replaced"] + KINDS
BOUNDS = ("trees of every string of up to 4 (thorough 5) arbitrary code points and of every snippet with each position "
          "replaced by 1 arbitrary code point; every choice of visited, replaced and dropped node kind out of 11 (spans included); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    out = snippets.free(3 if tier == "quick" else 4)
    out += snippets.windows(snippets.ALL, [(1, 1)], stride=4 if tier == "quick" else 1)
    out += snippets.big(1 if tier == "quick" else 12, only=["args", "attrs", "variants"])
    return out


class All(Visitor):
    def __init__(self):
        self.seen = []

    def generic_visit(self, node):
        self.seen.append(node)
        super().generic_visit(node)


def only(kind, base):
    """A visitor class with one specific handler, named like all the others."""
    def handler(self, node):
        self.seen.append(node)
        if self.descend:
            self.generic_visit(node)
    return type("All", (base,), {"visit_" + kind: handler})


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    kind = inp.choice("kind", KINDS)
    r = parse(s)
    # lists that hold other things than nodes, and empty ones
    r.body.append(ast.Junk("", [ast.Annotation("", [inp.choice("argument", ["", "x"]), "", 0, None], ""), ast.Annotation("E0001", [], None)]))
    r.body.append(ast.GroupComment(""))
    before = tree.plain(r)
    nodes = tree.nodes(r)
    v = All()
    v.visit(r)
    E.check(len(v.seen) == len(nodes), "a visitor misses or repeats nodes")
    for i in range(len(nodes)):
        E.check(v.seen[i] is nodes[i], "a visitor does not visit nodes in order")
    v = only(kind, Visitor)()
    v.seen = []
    v.descend = True
    v.visit(r)
    want = [n for n in nodes if type(n).__name__ == kind]
    E.check(len(v.seen) == len(want), "a specific handler is not called once per node of its kind")
    for i in range(len(want)):
        E.check(v.seen[i] is want[i], "a specific handler is called for the wrong node")
        E.tag(kind)
    v = only(kind, Visitor)()
    v.seen = []
    v.descend = False
    v.visit(r)
    top = outermost(r, kind)
    E.check(len(v.seen) == len(top), "a handler that does not descend sees nested nodes")
    tree.same(E, tree.plain(r), before, "a read-only visitor changes the tree")
    # a transformer without handlers keeps the very same tree
    t = Transformer()
    E.check(t.visit(r) is r, "a transformer without handlers returns another tree")
    tree.same(E, tree.plain(r), before, "a transformer without handlers changes the tree")
    E.check(len(tree.nodes(r)) == len(nodes), "a transformer without handlers changes the tree")
    # dropping every node of one kind
    c = r.clone()
    keep = drop_plain(c, kind)

    def gone(self, node):
        return None
    d = type("All", (Transformer,), {"visit_" + kind: gone})()
    held = lists(c)
    out = d.visit(c)
    E.check(out is c, "a transformer returns another root")
    kept = lists(c)
    in_place(E, held, kept)
    tree.same(E, tree.plain(c), keep, "dropping nodes changes something else")
    E.tag("dropped")
    # replacing every node of one kind
    c = r.clone()
    expected = rename_plain(tree.plain(c), kind)

    def swap(self, node):
        self.generic_visit(node)
        m = node.clone()
        for f in sorted(vars(m)):
            x = getattr(m, f)
            if isinstance(x, str):
                setattr(m, f, x + "~")
            elif f == "start":
                setattr(m, f, x + 10)
        return m
    w = type("All", (Transformer,), {"visit_" + kind: swap})()
    held = lists(c)
    w.visit(c)
    kept = lists(c)
    in_place(E, held, kept)
    tree.same(E, tree.plain(c), expected, "replacing nodes changes something else")
    E.tag("replaced")
    tree.same(E, tree.plain(r), before, "transforming a clone changes the original")
    E.observe(tree.plain(c))


def in_place(E, held, kept):
    before = {}
    for n, f, x in held:
        before.setdefault(n, {})[f] = x
    for n, f, x in kept:
        if n in before and f in before[n]:
            E.check(x is before[n][f], "a list is not changed in place")


def lists(n):
    out = []
    for m in tree.nodes(n):
        for f in sorted(vars(m)):
            x = getattr(m, f)
            if isinstance(x, list):
                out.append((m, f, x))
    return out


def outermost(n, kind):
    if type(n).__name__ == kind:
        return [n]
    out = []
    for f in vars(n):
        x = getattr(n, f)
        for y in x if isinstance(x, list) else [x]:
            if tree.is_node(y):
                out.extend(outermost(y, kind))
    return out


def drop_plain(n, kind):
    """plain(n) without the nodes of one kind."""
    if tree.is_node(n):
        return (type(n).__name__, [(f, drop_plain(getattr(n, f), kind)) for f in sorted(vars(n))
                                   if type(getattr(n, f)).__name__ != kind])
    if isinstance(n, list):
        return [drop_plain(x, kind) for x in n if type(x).__name__ != kind]
    return n


def rename_plain(t, kind):
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], list) and isinstance(t[0], str):
        fields = []
        for f, v in t[1]:
            v = rename_plain(v, kind)
            if t[0] == kind and isinstance(v, str):
                v = v + "~"
            elif t[0] == kind and f == "start":
                v = v + 10
            fields.append((f, v))
        return (t[0], fields)
    if isinstance(t, list):
        return [rename_plain(x, kind) for x in t]
    return t
