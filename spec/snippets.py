"""Base texts whose every position is opened up to free characters (the sliding windows)."""

PATTERNS = {
    "block": "a =\n  b\n   c\n",
    "mixed": "a = b\n  {1}c\n\n d\n",
    "attr": "a =\n   b{1}\n  c\n .x = y\n  z\n",
    "variant": "a = {1 ->\n *[o]\n   b\n  c\n}\n",
    "col0": "a =\n{1}\n{2} b\n",
    "crlf": "a =\r\n  b \r\n   c\r\n .x=\r\n y\r\n",
    "late": "a =\n  {1}{$b}{2}{3}c\n    d\n  {4}\n   e",
    "deep": "a =\n .b = {$x ->\n [c]\n   d\n    e\n *[f] {$y ->\n *[g] h\n }\n  i\n }\n",
}
EXPRESSIONS = {
    "str": 'a = {"b\\\\\\"\\u00e9\\U01F602"}\n',
    "num": "a = {-10.50}\n",
    "refs": "a = {$b}{c.d}{-e}\n",
    "func": 'a = {F(1, x: "y", z: 2)}\n',
    "term": "a = {-t(a: 1)}{ {m} }\n",
    "tsel": "a = {-t.a ->\n *[x] y\n}\n",
    "sel": "a = {$x ->\n  [1] b\n *[o] c\n  }\n",
    "names": 'aB-2_c = {aB-2.c_D}{F-2_G(aB-2_c: 1)}{$b-2_C ->\n*[cB-2_] {-d-2_E(h_2I: 2)}\n}\n',
    "dup": "a = {F(b, $c, d: 1, e: 2)}\n",
    "nest": "a = {F(G(b: 1), {H(c: 2)}, b: 3)}\n",
    "keys": "a = {G() ->\n [ -1.5 ] b\n *[ab] {c}\n}\n",
}
ENTRIES = {
    "msgs": "a = b\n-c = d\n .e = f\n",
    "junk": "a = {\nb = c\n# d\ne\nf = g\n",
    "groups": "## g\n\n### r\n-t = v\n",
    "eof": "a = b\n\nc = {1}",
    "attrs": "a =\n .b = c\n .d = e\nf\n",
}
COMMENTS = {
    "two": "# c\n# d\na = b\n",
    "levels": "# c\n## d\n### e\n# f\n",
    "sep": "# c\n\na = b\n#\n# d",
    "junk": "# c\nd\n#e\n",
    "owned": "# c\na =\n .b = d\n# e\n-t = f\n .g = h\n",
    "crlf": "# c\r\n#\r\n# d\r\na = b\r\n",
}
ALL = {}
for _g, _d in (("p", PATTERNS), ("x", EXPRESSIONS), ("e", ENTRIES), ("c", COMMENTS)):
    for _k, _v in _d.items():
        ALL[_g + "." + _k] = _v


def window(base, pos, drop, free, dom=None):
    parts = []
    if pos:
        parts.append(base[:pos])
    parts.append([free, dom] if dom else free)
    if base[pos + drop:]:
        parts.append(base[pos + drop:])
    return parts


def windows(group, specs, stride=1, only=None):
    """Jobs: for every snippet, position and (drop, free) in specs."""
    out = []
    for name in group:
        base = group[name]
        if only and name not in only:
            continue
        for drop, free in specs:
            for pos in range(0, len(base) - drop + 1, stride):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos),
                            "parts": window(base, pos, drop, free)})
    return out


def pairs(group, every=1, dom=None):
    """Every snippet with two characters, apart from each other, opened at once; every n-th of these pairs."""
    out = []
    for name in group:
        base = group[name]
        k = 0
        for i in range(len(base)):
            for j in range(i + 2, len(base)):
                k += 1
                if k % every:
                    continue
                one = [1, dom] if dom else 1
                out.append({"name": "%s:@%d@%d" % (name, i, j),
                            "parts": ([base[:i]] if i else []) + [one, base[i + 1:j], one] + ([base[j + 1:]] if base[j + 1:] else [])})
    return out


def prefixes(group, free=1, stride=1):
    """Every snippet cut off at every place, and continued there by arbitrary characters."""
    out = []
    for name in group:
        base = group[name]
        for pos in range(1, len(base), stride):
            for k in range(free + 1):
                out.append({"name": "%s:cut%d+%d" % (name, pos, k), "parts": [base[:pos]] + ([k] if k else [])})
    return out


def free(n, dom=None):
    return [{"name": "free%d" % k, "parts": [[k, dom] if dom else k]} for k in range(n + 1)]


def _nest(n):
    t = "x"
    for k in range(n):
        t = "{" + t + "}" if k else "{$x}"
    return t


def _select(n):
    t = "v"
    for k in range(n):
        t = "{$s%d ->\n %s[k%d] w%d\n %s*[other] %s\n %s}" % (k, " " * (n - k), k, k, " " * (n - k), t, " " * (n - k))
    return t


# Texts past any small limit one may have in mind: many, long and deep.
BIG = {
    "args": "a = {F(" + ", ".join(["$p%d" % k for k in range(17)] + ["n%d: %d" % (k, k) for k in range(9)]) + ")}\n",
    "attrs": "# c\na = v\n" + "".join(" .at%d = w%d\n  x\n" % (k, k) for k in range(18)) + "b = c\n",
    "nested": "a = b" + _nest(18) + "c\n",
    "selects": "a = " + _select(5) + "\nb = c\n",
    "comment": "".join("# line %d\n" % k for k in range(22)) + "a = b\n" + "".join("## g%d\n" % k for k in range(12)),
    "names": "m" + "ab-_9Z" * 12 + " = {$v" + "cD_-7" * 14 + "} {\"" + "s\\\"t" * 20 + "\\u00e9\"} {-" + "12" * 18 + "." + "50" * 16 + "}\n",
    "lines": "a =\n" + "".join(" " * (12 - k % 5) + "line %d\n" % k + "\n" * (k % 4) for k in range(20)) + "b = c\n",
    "entries": "".join(["m%d = v%d\n", "-t%d = w%d\n", "# c%d\n\n# d%d\n", "oops%d %d\n", "n%d =\n .a = b%d\n"][k % 5] % (k, k)
                       for k in range(25)),
    "variants": "a = {$n ->\n" + "".join("  [%s] t%d\n" % (("k%d" if k % 2 else "%d.5") % k, k) for k in range(16))
                + " *[other] z\n}\n -t = u\n",
    "pattern": "a = " + "".join("text %d {$v%d} " % (k, k) for k in range(16)) + "\n",
    "spaces": "a" + " " * 40 + "=" + " " * 40 + "b" + " " * 40 + "{" + " " * 20 + "$c" + "\n" * 20 + "}" + " " * 30 + "\n" * 20 + " " * 20 + ".d = e",
}


def big(spots=24, frees=((0, 1),), only=None):
    """The big texts, opened at a few places spread over each."""
    out = []
    for name in BIG:
        if only and name not in only:
            continue
        base = BIG[name]
        for drop, free in frees:
            for pos in sorted({(len(base) - drop) * (2 * k + 1) // (2 * spots) for k in range(spots)}):
                out.append({"name": "big-%s:-%d+%d@%d" % (name, drop, free, pos), "parts": window(base, pos, drop, free)})
    return out
