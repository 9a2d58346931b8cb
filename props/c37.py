"""C37 the highlighter loses nothing: its tokens are the text, in order, without gaps."""
from fluent.pygments.lexer import FluentLexer
from spec import snippets

ID = "C37"
EXPECT = ["Token.Punctuation", "Token.Literal", "Token.Generic.Error", "Token.Comment.Multiline", "Token.Name.Attribute"]
BOUNDS = ("every string of up to 4 (thorough 6) arbitrary code points; every snippet with each position replaced by "
          "1 (thorough 2) or extended by 1 (thorough also 2) arbitrary code points")


def jobs(tier):
    if tier == "quick":
        return snippets.free(4) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)])
    return snippets.free(6) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2), (0, 2)])


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    at = 0
    n = 0
    for index, kind, text in FluentLexer().get_tokens_unprocessed(s):
        E.check(index == at, "a token does not start where the one before ends")
        E.check(len(text) > 0, "an empty token")
        E.check(text == s[at:at + len(text)], "a token is not the text it stands for")
        E.tag(str(kind))
        at += len(text)
        n += 1
    E.check(at == len(s), "the tokens do not cover the text")
    E.observe(n)
