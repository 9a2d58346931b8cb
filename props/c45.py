"""C45 the highlight command highlights the whole file, as Fluent, on standard output."""
import sys
import pygments
from fluent.pygments import cli
from spec import snippets

ID = "C45"
EXPECT = ["text", "CR LF", "empty"]
UTF8 = [[0, 0xD7FF], [0xE000, 0x10FFFF]]
BOUNDS = ("files holding every text of up to 4 (thorough 5) code points that UTF-8 can hold, and every snippet with every second (thorough: each) position "
          "replaced or extended by 1 such code point; the highlighter of pygments replaced by one that writes the lexer's tokens")


def jobs(tier):
    out = snippets.free(4 if tier == "quick" else 5) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)], stride=2 if tier == "quick" else 1)
    for j in out:
        j["parts"] = [p if isinstance(p, str) else [p, UTF8] for p in j["parts"]]
    return out


class Shown:
    """In place of pygments' highlight: writes the tokens of the lexer between angle brackets."""

    def __init__(self):
        self.calls = []

    def highlight(self, code, lexer, formatter, outfile=None):
        self.calls.append((code, type(lexer).__name__, type(formatter).__name__))
        out = "<"
        for _, _, text in lexer.get_tokens_unprocessed(code):
            out = out + text
        out = out + ">"
        if outfile is None:
            return out
        outfile.write(out)


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    root = E.files({"d/in.ftl": s})
    shown = Shown()
    saved = pygments.highlight, getattr(cli, "highlight", None), sys.argv
    try:
        pygments.highlight = shown.highlight
        if hasattr(cli, "highlight"):
            cli.highlight = shown.highlight
        sys.argv = ["fluent-highlight", root + "/d/in.ftl"]
        printed = E.printed(cli.main)
    finally:
        pygments.highlight, sys.argv = saved[0], saved[2]
        if hasattr(cli, "highlight"):
            cli.highlight = saved[1]
    want = s.replace("\r\n", "\n").replace("\r", "\n")
    E.check(len(shown.calls) == 1, "the text is not highlighted once")
    code, lexer, formatter = shown.calls[0]
    E.check(code == want, "another text is highlighted")
    E.check(lexer == "FluentLexer", "the text is highlighted as another language")
    E.check(formatter == "Terminal256Formatter", "the text is not written for a terminal")
    E.check(printed == "<" + want + ">", "another text is shown")
    E.tag("empty" if not s else "CR LF" if want != s else "text")
    E.observe(code)
