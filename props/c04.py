"""C04 pattern text: whitespace, blank lines and indentation are stripped exactly as prescribed."""
from spec import conform, snippets

ID = "C04"
EXPECT = ["Message", "Junk"]
BOUNDS = ("pattern snippets with each position replaced by 1..2 (thorough 3) or extended by 1..2 arbitrary code points, "
          "and pattern shapes of up to 5 (thorough 7) characters out of space LF CR { } . [ * 1 b in 4 contexts; "
          "two places at once opened to 1 each (every 2nd such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")
run = conform.run


def shapes(n):
    out = []
    for k in range(n + 1):
        for name, head, tail in (("a", "a =", ""), ("b", "a =\n", "\n  b\n"), ("c", "a = b\n", "\nc = d\n"),
                                 ("v", "a = {1 ->\n*[o]", "\n}")):
            m = k if name in "ac" else max(0, k - 1)
            out.append({"name": "shape-%s%d" % (name, k), "parts": [head, [m, " \n\r{}.[*1b"], tail]})
    return out


def jobs(tier):
    if tier == "quick":
        return snippets.windows(snippets.PATTERNS, [(1, 1), (0, 1), (2, 2), (0, 2)]) + shapes(5) + snippets.big() + snippets.pairs(snippets.PATTERNS, 2)
    return snippets.windows(snippets.PATTERNS, [(1, 1), (0, 1), (2, 2), (0, 2), (3, 3), (6, 3)]) + shapes(7) + snippets.big(120, ((0, 1), (2, 2))) \
        + snippets.pairs(snippets.PATTERNS)
