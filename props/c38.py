"""C38 the highlighter marks every construct as what it is."""
from fluent.pygments.lexer import FluentLexer
from fluent.syntax import parse
from spec import snippets

ID = "C38"
EXPECT = ["Comment.Multiline", "Generic.Error", "Literal", "Literal.Number", "Literal.String", "Name.Attribute", "Name.Constant",
          "Name.Variable", "Punctuation"]
BOUNDS = ("every string of up to 4 (thorough 5) arbitrary code points; every snippet with each position replaced by or extended by "
          "1 (thorough also 2 by 2) arbitrary code points")


def jobs(tier):
    if tier == "quick":
        return snippets.free(4) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)])
    return snippets.free(5) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2)])


def put(out, n, kind):
    if n is not None:
        out.append((n.span.start, n.span.end, kind))


def entry(out, n):
    k = type(n).__name__
    if k in ("Comment", "GroupComment", "ResourceComment"):
        put(out, n, "Comment.Multiline")
    elif k == "Junk":
        put(out, n, "Generic.Error")
    else:
        put(out, n.comment, "Comment.Multiline")
        put(out, n.id, "Name.Constant")
        pattern(out, n.value)
        for a in n.attributes:
            put(out, a.id, "Name.Constant")
            pattern(out, a.value)


def pattern(out, n):
    if n is None:
        return
    for e in n.elements:
        if type(e).__name__ == "TextElement":
            put(out, e, "Literal")
        else:
            expression(out, e.expression)


def expression(out, n):
    k = type(n).__name__
    if k == "Placeable":
        expression(out, n.expression)
    elif k == "StringLiteral":
        put(out, n, "Literal.String")
    elif k == "NumberLiteral":
        put(out, n, "Literal.Number")
    elif k == "VariableReference":
        put(out, n, "Name.Variable")
    elif k == "MessageReference":
        put(out, n.id, "Name.Constant")
        put(out, n.attribute, "Name.Constant")
    elif k == "TermReference":
        put(out, n.id, "Name.Constant")
        put(out, n.attribute, "Name.Constant")
        arguments(out, n.arguments)
    elif k == "FunctionReference":
        put(out, n.id, "Name.Constant")
        arguments(out, n.arguments)
    else:
        expression(out, n.selector)
        for v in n.variants:
            put(out, v.key, "Name.Attribute")
            pattern(out, v.value)


def arguments(out, n):
    if n is None:
        return
    for a in n.positional:
        expression(out, a)
    for a in n.named:
        put(out, a.name, "Name.Constant")
        expression(out, a.value)


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    want = []
    for e in parse(s).body:
        entry(want, e)
    full = []
    at = 0
    for a, b, kind in want:
        if a > at:
            full.append((at, a, "Punctuation"))
        full.append((a, b, kind))
        at = b
    if at < len(s):
        full.append((at, len(s), "Punctuation"))
    got = [(i, i + len(t), str(kind)[6:]) for i, kind, t in FluentLexer().get_tokens_unprocessed(s)]
    E.check(len(got) == len(full), "another number of tokens")
    for g, w in zip(got, full):
        E.check(g[0] == w[0] and g[1] == w[1], "a token stands for another part of the text")
        E.check(g[2] == w[2], "a construct is marked as another one")
        E.tag(g[2])
