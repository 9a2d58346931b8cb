"""C06 spans are precise and properly nested, and turning them off changes nothing else."""
from fluent.syntax import ast, parse
from spec import grammar, snippets, tree

ID = "C06"
EXPECT = ["Identifier", "TextElement", "Placeable", "Variant", "Attribute", "StringLiteral", "CallArguments"]
BOUNDS = ("every string of up to 4 (thorough 6) arbitrary code points; every snippet with each position replaced by "
          "1 (thorough 2) or extended by 1 arbitrary code points; "
          "any snippet cut off anywhere and continued by 0..1 arbitrary code points (thorough 2); two places at once opened to 1 each (every 9th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    if tier == "quick":
        return snippets.free(4) + snippets.big() + snippets.pairs(snippets.ALL, 9) + snippets.prefixes(snippets.ALL) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)])
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.prefixes(snippets.ALL, 2) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2), (0, 2)])


def starts(s, a, text):
    return s[a:a + len(text)] == text


def one(E, s, n, lo, hi):
    """Check node n inside the extent lo..hi of its parent, then its children."""
    k = type(n).__name__
    E.tag(k)
    E.check(n.span is not None, k + " has no span")
    a, b = n.span.start, n.span.end
    E.check(lo <= a and a <= b and b <= hi, k + " span is not inside its parent's")
    t = s[a:b]
    if k == "Identifier":
        E.check(t == n.name, "Identifier span is not the name")
    elif k == "NumberLiteral":
        E.check(t == n.value, "NumberLiteral span is not the number")
    elif k == "StringLiteral":
        E.check(t == '"' + n.value + '"', "StringLiteral span is not the quoted text")
    elif k == "TextElement":
        first = n.value.split("\n")[0]
        src = t.replace("\r\n", "\n")
        E.check(src.lstrip(" \n").startswith(first.lstrip(" ")), "TextElement span does not hold its text")
        if not "\n" in src:
            core = src.lstrip(" ")
            text = n.value.lstrip(" ")
            E.check(core.startswith(text), "TextElement span does not hold its text")
            E.check(core[len(text):].strip(" \r") == "", "TextElement span extends past its text")
    elif k == "Placeable":
        E.check(t.startswith("{") and t.endswith("}"), "Placeable span is not delimited by braces")
    elif k == "VariableReference":
        E.check(t == "$" + n.id.name, "VariableReference span is not the reference")
    elif k == "MessageReference":
        want = n.id.name if n.attribute is None else n.id.name + "." + n.attribute.name
        E.check(t == want, "MessageReference span is not the reference")
    elif k == "TermReference":
        want = "-" + n.id.name if n.attribute is None else "-" + n.id.name + "." + n.attribute.name
        E.check(t.startswith(want), "TermReference span does not start at the reference")
        if n.arguments is None:
            E.check(t == want, "TermReference span is not the reference")
        else:
            E.check(t.endswith(")"), "TermReference span does not end at its arguments")
    elif k == "FunctionReference":
        E.check(t.startswith(n.id.name) and t.endswith(")"), "FunctionReference span is not the call")
    elif k == "CallArguments":
        E.check(t.startswith("(") and t.endswith(")"), "CallArguments span is not delimited by parentheses")
    elif k == "NamedArgument":
        E.check(t.startswith(n.name.name), "NamedArgument span does not start at its name")
        E.check(n.value.span.end == b, "NamedArgument span does not end at its value")
    elif k == "Variant":
        E.check(t.startswith("*" if n.default else "["), "Variant span does not start at its key")
        E.check(n.value.span.end == b, "Variant span does not end with its value")
    elif k == "Attribute":
        E.check(t.startswith("." + n.id.name), "Attribute span does not start at its dot")
        E.check(n.value.span.end == b, "Attribute span does not end with its value")
    elif k == "SelectExpression":
        E.check(n.selector.span.start == a, "SelectExpression span does not start at its selector")
    elif k == "Message" or k == "Term":
        head = n.id.name if k == "Message" else "-" + n.id.name
        if n.comment is None:
            E.check(t.startswith(head), "entry span does not start at the entry")
        else:
            E.check(n.comment.span.start == a, "entry span does not start at its comment")
        last = n.attributes[-1] if n.attributes else n.value
        E.check(last.span.end == b, "entry span does not end with its last part")
    elif k in ("Comment", "GroupComment", "ResourceComment"):
        mark = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}[k]
        E.check(t.startswith(mark), "comment span does not start at its marker")
        E.check(not t.endswith("\n"), "comment span runs past its text")
    elif k == "Junk":
        E.check(t == n.content, "Junk span is not its content")
    pos = a
    for c in ordered(n):
        if type(c).__name__ == "Annotation":
            E.check(a <= c.span.start and c.span.end <= b, "annotation outside its Junk")
            continue
        one(E, s, c, a, b)
        E.check(pos <= c.span.start, k + " children overlap or are out of order")
        pos = c.span.end


def ordered(n):
    """Child nodes in the order they are written."""
    k = type(n).__name__
    if k == "Resource":
        return n.body
    if k in ("Message", "Term"):
        return ([n.comment] if n.comment is not None else []) + [n.id] \
            + ([n.value] if n.value is not None else []) + n.attributes
    if k == "CallArguments":
        return n.positional + n.named
    out = []
    for name, v in vars(n).items():
        if name == "span":
            continue
        if isinstance(v, list):
            out.extend(v)
        elif tree.is_node(v):
            out.append(v)
    if k in ("MessageReference", "TermReference", "FunctionReference"):
        rest = [c for c in out if c is not n.id]
        return [n.id] + rest
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    r = parse(s)
    one(E, s, r, 0, len(s))
    bare = parse(s, with_spans=False)
    tree.same(E, tree.plain(r, False), tree.plain(bare, False), "with_spans=False changes the tree")
    for n in tree.nodes(bare):
        if type(n).__name__ != "Span":
            E.check(n.span is None, "with_spans=False leaves a span")
    E.observe(tree.plain(r))
