"""C12 trees built in code are written as text that parses to the same tree."""
from fluent.syntax import ast, parse, serialize
from fluent.syntax.serializer import FluentSerializer
from spec import grammar

ID = "C12"
EXPECT = ["text", "multiline", "expression", "select", "resource", "comment"]
BOUNDS = ("patterns of up to 3 elements (text, variable, string, or a selection) in messages, terms, attributes, variants and "
          "variants of nested selections, the texts of up to 3 (thorough 5) characters out of a b space LF [ . * } # = - and of any code point but CR; "
          "expressions of every kind nested 2 (thorough 3) deep; resources of 3 entries of any kind with comments of up to 2 characters; all of "
          "the form the parser can produce (no adjacent texts, indentation already removed)")
TEXT = "ab \n[.*#=-\""
ANY = [[0, 0xC], [0xE, 0x7A], [0x7C, 0x7C], [0x7E, 0x10FFFF]]     # neither CR nor braces
LAYOUTS = ["T", "TP", "PT", "TPT", "PTP", "PP", "TPP"]
PLACES = ["message", "term", "attribute", "termattr", "variant", "nested"]


def jobs(tier):
    out = []
    n = 3 if tier == "quick" else 5
    for place in PLACES:
        for lay in LAYOUTS:
            k = lay.count("T")
            for size in range(1, n + 1):
                for at in range(max(k, 1)):
                    if k > 1 and size == 1 and at:
                        continue
                    out.append({"name": "text:%s:%s:%d:%d" % (place, lay, size, at), "kind": "text", "place": place, "layout": lay,
                                "size": size, "at": at, "dom": TEXT})
                if k == 0:
                    break
        for size in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append({"name": "any:%s:%d" % (place, size), "kind": "text", "place": place, "layout": "T", "size": size, "at": 0, "dom": ANY})
    for outer in EXPRESSIONS:
        out.append({"name": "expr:%s" % outer, "kind": "expr", "outer": outer, "depth": 2 if tier == "quick" else 3})
    for a in ENTRIES:
        for b in ENTRIES:
            out.append({"name": "resource:%s:%s" % (a, b), "kind": "resource", "entries": [a, b], "size": 2 if tier == "quick" else 3})
    return out


def ident(x):
    return ast.Identifier(x)


def canonical(elements):
    """Whether a parser can produce these elements: (None for a placeable, or text)."""
    lines = [[]]
    for e in elements:
        if e is None:
            lines[-1].append(None)
            continue
        for c in e:
            if c == "\n":
                lines.append([])
            else:
                lines[-1].append(c)
    if not lines[0] or not lines[-1]:
        return False
    if lines[-1][-1] == " ":
        return False
    indents = []
    for i in range(len(lines)):
        line = lines[i]
        k = 0
        while k < len(line) and line[k] == " ":
            k += 1
        if k == len(line):
            if k:
                return False
            continue
        special = line[k] is not None and line[k] in "[.*"
        if i and special:
            return False
        indents.append(k)
        if i == 0:
            head = special
    first, rest = indents[0], indents[1:]
    m = min(rest) if rest else None
    inline = first == 0 and (m is None or m == 0)
    block = not head and (first if m is None else min(first, m)) == 0
    return inline or block


EXPRESSIONS = ["string", "number", "variable", "message", "message.attr", "term", "term()", "function", "placeable", "select",
               "termattr"]
INLINE = ["string", "number", "variable", "message", "message.attr", "term", "term()", "function", "placeable"]
SELECTORS = ["string", "number", "variable", "function", "termattr"]


def literal(inp, name):
    if inp.bool(name + " string?"):
        return ast.StringLiteral(inp.text(name + " text", [[1, [[0x20, 0x21], [0x23, 0x5B], [0x5D, 0x10FFFF]]]]))
    return ast.NumberLiteral(("-" if inp.bool(name + " minus") else "") + inp.text(name + " digits", [[1, "0123456789"]])
                             + (".0" if inp.bool(name + " places") else ""))


ARGUMENTS = ["none", "variable", "number", "{number", "{string", "{variable", "{{number"]


def arguments(inp, name, depth):
    pos = []
    first = inp.choice(name + " positional", ARGUMENTS if depth else ["none", "variable"])
    if first != "none":
        x = ast.NumberLiteral("1") if "number" in first else ast.StringLiteral("s") if "string" in first else ast.VariableReference(ident("v"))
        for _ in range(first.count("{")):
            x = ast.Placeable(x)
        pos.append(x)
        if depth > 1:
            pos.append(expression(inp, name + "p", INLINE, depth - 1))
    named = []
    for k in range(2):
        if inp.bool("%s named%d" % (name, k)):
            named.append(ast.NamedArgument(ident("n" + "ab"[k]), literal(inp, "%s%d" % (name, k)) if k else ast.NumberLiteral("1")))
    return ast.CallArguments(pos, named)


def expression(inp, name, kinds, depth):
    kind = inp.choice(name + " kind", kinds) if len(kinds) > 1 else kinds[0]
    if kind == "string":
        return ast.StringLiteral(inp.choice(name + " string", ["", "a", " ", "{", "\\\"", "\\u00e9"]))
    if kind == "number":
        return ast.NumberLiteral(inp.choice(name + " number", ["0", "-1.50"]))
    if kind == "variable":
        return ast.VariableReference(ident("v"))
    if kind == "message":
        return ast.MessageReference(ident("m"))
    if kind == "message.attr":
        return ast.MessageReference(ident("m"), ident("a"))
    if kind == "term":
        return ast.TermReference(ident("t"))
    if kind == "termattr":
        return ast.TermReference(ident("t"), ident("a"), arguments(inp, name, 0) if inp.bool(name + " call") else None)
    if kind == "term()":
        return ast.TermReference(ident("t"), None, arguments(inp, name, depth))
    if kind == "function":
        return ast.FunctionReference(ident("F_2"), arguments(inp, name, depth))
    if kind == "placeable":
        return ast.Placeable(expression(inp, name + "i", INLINE + ["select"] if depth > 1 else ["variable"], depth - 1))
    return select(inp, name, depth)


def select(inp, name, depth):
    selector = expression(inp, name + "s", SELECTORS if depth > 1 else ["variable"], depth - 1)
    variants = []
    n = inp.choice(name + " variants", [1, 2])
    default = n - 1 if inp.bool(name + " last") else 0
    for k in range(n):
        key = ident("kl"[k]) if inp.bool("%s key%d" % (name, k)) else ast.NumberLiteral("-1.0")
        value = ast.Pattern([ast.TextElement("a\n b")]) if inp.bool("%s lines%d" % (name, k)) else \
            ast.Pattern([ast.Placeable(expression(inp, "%sv%d" % (name, k), INLINE + ["select"] if k and depth > 2 else ["variable"], depth - 1))])
        variants.append(ast.Variant(key, value, k == default))
    return ast.SelectExpression(selector, variants)


def one(key, value):
    return ast.SelectExpression(ast.VariableReference(ident("v")), [ast.Variant(ident("x"), ast.Pattern([ast.TextElement("y")])),
                                                                   ast.Variant(ident(key), value, True)])


ENTRIES = ["comment", "group", "resource", "message", "term", "attrs"]


def entry(inp, name, kind, size, letter):
    def comment(k):
        n = inp.choice(name + k + " length", list(range(size + 1)))
        return inp.text(name + k, [[n, "a \n#"]]) if n else ""
    if kind == "comment":
        return ast.Comment(comment("c"))
    if kind == "group":
        return ast.GroupComment(comment("c"))
    if kind == "resource":
        return ast.ResourceComment(comment("c"))
    value = ast.Pattern([ast.TextElement("v")])
    attr = [ast.Attribute(ident("a"), ast.Pattern([ast.TextElement("w\nx")])), ast.Attribute(ident("b"), value.clone())]
    own = ast.Comment(comment("o")) if inp.bool(name + " owned") else None
    if kind == "message":
        return ast.Message(ident(letter), value, attr if inp.bool(name + " attrs") else [], own)
    if kind == "term":
        return ast.Term(ident(letter), value, attr if inp.bool(name + " attrs") else [], own)
    return ast.Message(ident(letter), None, attr, own)


def build(E, inp, job):
    kind = job["kind"]
    if kind == "resource":
        entries = [entry(inp, "e%d" % i, k, job["size"], "xyz"[i]) for i, k in enumerate(job["entries"])]
        entries.append(ast.Message(ident("last"), ast.Pattern([ast.TextElement("v")])))
        E.tag("resource")
        return ast.Resource(entries)
    if kind == "expr":
        x = expression(inp, "x", [job["outer"]], job["depth"])
        if job["outer"] == "termattr":
            x = ast.SelectExpression(x, [ast.Variant(ident("o"), ast.Pattern([ast.TextElement("a")]), True)])
        E.tag("expression")
        p = ast.Pattern([ast.Placeable(x)])
        return ast.Resource([ast.Message(ident("a"), p), ast.Message(ident("b"), None, [ast.Attribute(ident("c"), p.clone())])])
    elements, plain = [], []
    k = 0
    for i, c in enumerate(job["layout"]):
        if c == "T":
            if k == job["at"]:
                t = inp.text("text", [[job["size"], job["dom"]]])
                E.assume(len(t) > 0)
            else:
                t = inp.choice("other text", ["c", "\nc", "c\nd", "\n  c\nd", ".", "c "])
            k += 1
            elements.append(ast.TextElement(t))
            plain.append(t)
        else:
            x = inp.choice("placeable%d" % i, ["variable", "string", "select"])
            if x == "select":
                E.tag("select")
                elements.append(ast.Placeable(one("z", ast.Pattern([ast.TextElement("q\nr")]))))
            else:
                elements.append(ast.Placeable(ast.VariableReference(ident("v")) if x == "variable" else ast.StringLiteral("}")))
            plain.append(None)
    E.assume(canonical(plain))
    p = ast.Pattern(elements)
    E.tag("text")
    for t in plain:
        if t is not None and "\n" in t:
            E.tag("multiline")
    place = job["place"]
    if place == "message":
        r = [ast.Message(ident("a"), p)]
    elif place == "term":
        r = [ast.Term(ident("a"), p)]
    elif place == "attribute":
        r = [ast.Message(ident("a"), None, [ast.Attribute(ident("b"), p)])]
    elif place == "termattr":
        r = [ast.Term(ident("a"), ast.Pattern([ast.TextElement("v")]), [ast.Attribute(ident("b"), p), ast.Attribute(ident("c"), p.clone())])]
    elif place == "variant":
        r = [ast.Message(ident("a"), ast.Pattern([ast.Placeable(one("k", p)), ast.TextElement(" t")]))]
    else:
        inner = ast.Pattern([ast.TextElement("i "), ast.Placeable(one("k", p))])
        r = [ast.Message(ident("a"), None, [ast.Attribute(ident("b"), ast.Pattern([ast.Placeable(one("l", inner))]))])]
    r.append(ast.Message(ident("last"), ast.Pattern([ast.TextElement("v")])))
    return ast.Resource(r)


def run(E, inp, job):
    r = build(E, inp, job)
    for e in r.body:
        if isinstance(e, (ast.Comment, ast.GroupComment, ast.ResourceComment)):
            E.tag("comment")
    want = grammar.dump(r.body)
    text = serialize(r)
    again = parse(text)
    grammar.compare(E, grammar.dump(again.body), want, "re-parsed body")
    E.check(again.equals(r), "the parsed tree does not equal the written one")
    E.check(serialize(again) == text, "serializing again gives a different text")
    E.check(serialize(again, with_junk=True) == text, "a resource without junk is written otherwise with junk")
    E.check(text.endswith("\n"), "the text does not end with a line end")
    parts = []
    for e in r.body:
        parts.append(FluentSerializer().serialize_entry(e, 1 if parts else 0))
    E.check("".join(parts) == text, "a resource is not the text of its entries")
    E.observe(text)
