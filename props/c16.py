"""C16 literals decode to the written value."""
from fluent.syntax import ast, parse
from spec import snippets

ID = "C16"
HEX = "0123456789abcdefABCDEF"
EXPECT = ["plain", "u4", "u6", "surrogate", "backslash", "number", "fraction"]
BOUNDS = ("string literals of up to 4 (thorough 5) arbitrary code points, \\\\u with every 4 hex digits, \\\\U with every 6 hex "
          "digits (two of them fixed at a time), escapes next to 1..2 arbitrary characters, and after 20 and 300 (thorough 1200) escapes; number literals of up to "
          "6 (thorough 8) characters")


def jobs(tier):
    q = tier == "quick"
    out = []
    for k in range(5 if q else 6):
        out.append({"name": "any%d" % k, "lit": "s", "parts": ["a={\"", k, "\"}"]})
    for head in ("", "00", "01", "10", "0d", "11", "fF"):
        n = 6 - len(head) if head else 4
        out.append({"name": "U" + head if head else "u", "lit": "s",
                    "parts": ["a={\"x\\", "U" + head if head else "u", [n, HEX], "y\"}"]})
    out.append({"name": "mix1", "lit": "s", "parts": ["a={\"\\\\", 1, "\\u00e9", 1, "\\\"\"}"]})
    out.append({"name": "mix2", "lit": "s", "parts": ["a={\"\\\\u00e", 2, "\\U00004", 1, "\"}"]})
    out.append({"name": "mix3", "lit": "s", "parts": ["a={\"\\u00", 3, "\"}"]})
    out.append({"name": "mix4", "lit": "s", "parts": ["a={\"", [1, "\\u"], [1, "\\u\""], "u", [1, "0a\\"], "041", 1, "\"}"]})
    for n in (20, 300) if q else (20, 300, 1200):
        out.append({"name": "many%d" % n, "lit": "s", "parts": ["a={\"" + "\\u0041" * n, 1, "\\u00", [2, HEX], "\"}"]})
    for k in range(1, 6 if q else 8):
        out.append({"name": "num%d" % k, "lit": "n", "parts": ["a={", [k, "0123456789.-"], "}"]})
    out.append({"name": "num-long", "lit": "n", "parts": ["a={-1234567", [3, "0123456789."], "}"]})
    return out


def hexval(E, t):
    total = 0
    for c in t:
        k = ord(c)
        if k >= 97:
            d = k - 87
        elif k >= 65:
            d = k - 55
        else:
            d = k - 48
        total = total * 16 + d
    return total


def decode(E, raw):
    """Reference decoding -> list of (character or code point)."""
    out = []
    p = 0
    while p < len(raw):
        if raw[p] != "\\":
            out.append(raw[p])
            p += 1
            continue
        c = raw[p + 1]
        if c == "\\" or c == '"':
            out.append(c)
            E.tag("backslash")
            p += 2
            continue
        n = 4 if c == "u" else 6
        E.tag("u4" if n == 4 else "u6")
        out.append(hexval(E, raw[p + 2:p + 2 + n]))
        p += 2 + n
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    r = parse(s)
    m = r.body[0] if r.body else None
    if not isinstance(m, ast.Message) or m.value is None or len(m.value.elements) != 1:
        return
    lit = m.value.elements[0].expression if isinstance(m.value.elements[0], ast.Placeable) else None
    if isinstance(lit, ast.StringLiteral) and job["lit"] == "s":
        E.tag("plain")
        raw = lit.value
        got = lit.parse()["value"]
        E.check(lit.value == raw, "parse() changes the literal")
        want = decode(E, raw)
        E.check(len(got) == len(want), "decoded length differs")
        for i in range(len(want)):
            w = want[i]
            if isinstance(w, str):
                E.check(got[i] == w, "decoded character differs")
            else:
                scalar = w <= 0xD7FF or (w >= 0xE000 and w <= 0x10FFFF)
                if scalar:
                    E.check(ord(got[i]) == w, "escape decodes to another character")
                else:
                    E.tag("surrogate")
                    E.check(got[i] == "\ufffd", "an escape that is no character is not replaced by U+FFFD")
        E.observe(got)
    elif isinstance(lit, ast.NumberLiteral):
        E.tag("number")
        raw = lit.value
        got = lit.parse()
        dot = raw.find(".")
        E.check(got["precision"] == (0 if dot < 0 else len(raw) - dot - 1), "wrong precision")
        if dot >= 0:
            E.tag("fraction")
        # value * 10^precision is the integer written by the digits
        digits = raw[:dot] + raw[dot + 1:] if dot >= 0 else raw
        whole = int(digits)
        E.check(got["value"] == float(raw), "wrong value")
        E.check(got["value"] == whole / 10 ** got["precision"], "value is not the written number")
