"""C18 an annotation says what is wrong, and where."""
from fluent.syntax import ast, parse
from spec import snippets

ID = "C18"
CODES = ["E0002", "E0003", "E0004", "E0005", "E0006", "E0008", "E0009", "E0010", "E0011", "E0012", "E0013", "E0014", "E0015", "E0016",
         "E0017", "E0018", "E0019", "E0020", "E0021", "E0022", "E0025", "E0026", "E0027", "E0028", "E0029"]
EXPECT = list(CODES)
BOUNDS = ("every string of up to 4 (thorough 5) arbitrary code points; every snippet with each position replaced by 1..2 (quick: 1), extended "
          "by 1, or cut off; and 21 snippets of one error each with any 1..2 (thorough 3) characters where the error is; "
          "two places at once opened to 1 each (every 8th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")
BROKEN = {
    "E0005": ("key", " b =\n"), "E0006": ("-key", " =\n .a = b\n"), "E0008": ("a = {Fun", "(1)}\n"), "E0009": ("a = {F($b", ": 1)}\n"),
    "E0010": ("a = {1 ->\n [b] c", "\n}\n"), "E0011": ("a = {1 ->", "\n}\n"), "E0012": ("a = b\n .c", " =\n"), "E0013": ("a = {1 ->\n *[", ""),
    "E0014": ("a = {F(b:", "c)}\n"), "E0015": ("a = {1 ->\n *[b] c\n", "*[d] e\n}\n"), "E0016": ("a = {b", " ->\n *[c] d\n}\n"),
    "E0017": ("a = {-b", " ->\n *[c] d\n}\n"), "E0018": ("a = {b.c", " ->\n *[d] e\n}\n"), "E0019": ("a = {-b.c", "}\n"),
    "E0020": ("a = {\"b", "\n}\n"), "E0021": ("a = {F(b: 1", ", c)}\n"), "E0022": ("a = {F(b: 1,", "b: 2)}\n"), "E0025": ("a = {\"\\", "b\"}\n"),
    "E0026": ("a = {\"\\u12", "\"}\n"), "E0027": ("a = b", "}\n"), "E0029": ("a = {{$b}", " ->\n *[c] d\n}\n"),
}
TEXTS = {
    "E0002": "Expected an entry start", "E0008": "The callee has to be an upper-case identifier or a term",
    "E0009": "The argument name has to be a simple identifier", "E0010": "Expected one of the variants to be marked as default (*)",
    "E0011": "Expected at least one variant after \"->\"", "E0012": "Expected value", "E0013": "Expected variant key",
    "E0014": "Expected literal", "E0015": "Only one variant can be marked as default (*)",
    "E0016": "Message references cannot be used as selectors", "E0017": "Terms cannot be used as selectors",
    "E0018": "Attributes of messages cannot be used as selectors", "E0019": "Attributes of terms cannot be used as placeables",
    "E0020": "Unterminated string expression", "E0021": "Positional arguments must not follow named arguments",
    "E0022": "Named arguments must be unique", "E0027": "Unbalanced closing brace in TextElement.",
    "E0028": "Expected an inline expression", "E0029": "Expected simple expression as selector",
}
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"


def jobs(tier):
    quick = tier == "quick"
    out = snippets.free(4 if quick else 5)
    out += snippets.windows(snippets.ALL, [(1, 1), (0, 1)] if quick else [(1, 1), (0, 1), (2, 2)], stride=2 if quick else 1)
    out += snippets.pairs(snippets.ALL, 8 if quick else 1)
    out += snippets.big(12 if quick else 120)
    out += snippets.prefixes(snippets.EXPRESSIONS) + snippets.prefixes(snippets.ENTRIES)
    for code in BROKEN:
        a, b = BROKEN[code]
        for n in range(0, 3 if quick else 4):
            out.append({"name": "broken:%s:%d" % (code, n), "parts": [a, n, b]})
    return out


def message(code, args):
    if code in TEXTS:
        return TEXTS[code]
    if code == "E0003":
        return "Expected token: \"" + args[0] + "\""
    if code == "E0004":
        return "Expected a character from range: \"" + args[0] + "\""
    if code == "E0005":
        return "Expected message \"" + args[0] + "\" to have a value or attributes"
    if code == "E0006":
        return "Expected term \"-" + args[0] + "\" to have a value"
    if code == "E0025":
        return "Unknown escape sequence: \\" + str(args[0]) + "."
    return "Invalid Unicode escape sequence: " + args[0] + "."


def line_end(s, p):
    return s[p:p + 1] == "\n" or s[p:p + 2] == "\r\n"


def bare(t):
    """t without the blanks and line ends at its end."""
    n = len(t)
    while n and t[n - 1] in " \n\r":
        n -= 1
    return t[:n]


def name_before(t):
    n = len(t)
    while n and (t[n - 1] in LETTERS or t[n - 1] in DIGITS or t[n - 1] in "_-"):
        n -= 1
    return t[n:]


def fits(s, start, p, end, a):
    """Whether the text around p has the error."""
    code = a.code
    args = a.arguments
    here = s[p:p + 1]
    before = s[start:p]
    if p == end and p < len(s):
        # the error is in what follows and is part of another entry
        return True
    if code == "E0002":
        return p == start and not (here in LETTERS or here in "#-")
    if code == "E0003":
        if args[0] == "\u2424":
            return here != "" and not line_end(s, p)
        return here != args[0]
    if code == "E0004":
        return here == "" or not (here in LETTERS if args[0] == "a-zA-Z" else here in DIGITS)
    if code == "E0005" or code == "E0006":
        t = bare(before[:-1])
        return before[-1:] == "=" and t == ("-" if code == "E0006" else "") + args[0]
    if code == "E0008":
        t = s[p:]
        while t and t[0] in " \n\r":
            t = t[1:]
        return t[:1] == "(" and name_before(before) != ""
    if code == "E0009":
        return here == ":"
    if code == "E0010":
        return "->" in before and "[" in before
    if code == "E0011":
        return bare(before)[-2:] == "->"
    if code == "E0012":
        return before[-1:] == "=" or before[-1:] == "]"
    if code == "E0013":
        return here == "" and bare(before)[-1:] == "["
    if code == "E0014":
        return bare(before)[-1:] == ":" and here != "\""
    if code == "E0015":
        return here == "*" and "*[" in before
    if code in ("E0016", "E0017", "E0018", "E0029"):
        return s[p:p + 2] == "->"
    if code == "E0019":
        return "-" in before and "." in before and s[p:p + 2] != "->"
    if code == "E0020":
        return line_end(s, p) and "\"" in before
    if code == "E0021":
        return ":" in before and "," in before
    if code == "E0022":
        return ":" in before and "," in before
    if code == "E0025":
        return args[0] == ("\n" if line_end(s, p) else here if here else None) and before[-1:] == "\\" and (here == "" or here not in "\\\"uU")
    if code == "E0026":
        t = args[0]
        return t[:2] in ("\\u", "\\U") and (here == "" or here not in "0123456789abcdefABCDEF")
    if code == "E0027":
        return here == "}"
    return here == "" or not (here in LETTERS or here in DIGITS or here in "{\"$")


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    for e in parse(s).body:
        if not isinstance(e, ast.Junk):
            continue
        E.check(len(e.annotations) == 1, "junk has another number of annotations")
        a = e.annotations[0]
        E.check(a.code in CODES, "an unknown error code")
        E.tag(a.code)
        E.check(a.message == message(a.code, a.arguments), "an error message does not say what its code and arguments do")
        p = a.span.start
        E.check(a.span.end == p and e.span.start <= p <= e.span.end, "an annotation is no position in its junk")
        E.check(fits(s, e.span.start, p, e.span.end, a), "the text at an annotation does not have the error")
        E.observe((a.code, p, a.message))
