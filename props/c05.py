"""C05 placeables and expressions are accepted and structured exactly as prescribed."""
from spec import conform, snippets

ID = "C05"
EXPECT = ["Message", "Junk"]
BOUNDS = ("expression snippets with each position replaced by 1..2 or extended by 1 (thorough 2) arbitrary code points; "
          "a placeable holding up to 3 arbitrary characters; placeable, argument list, selector, variant and key texts "
          "of up to 3 (thorough 4) characters of the expression alphabet; "
          "any snippet cut off anywhere and continued by 0..1 arbitrary code points (thorough 2); two places at once opened to 1 each (every 3rd such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")
run = conform.run


def shapes(n, m):
    out = []
    for k in range(n + 1):
        out.append({"name": "placeable-any%d" % k, "parts": ["a = {", min(k, 3), "}\n"]})
        out.append({"name": "placeable%d" % k, "parts": ["a = {", [k, '-$.1aA{}()"\\ \n'], "}\n"]})
    for k in range(m + 1):
        out.append({"name": "args%d" % k, "parts": ["a = {F(", [k, 'aA1-$.:,()" \n'], ")}\n"]})
        out.append({"name": "named%d" % k, "parts": ['a = {F(a:1', [k, ',:ab1-")( '], ")}\n"]})
        out.append({"name": "selector%d" % k, "parts": ["a = {", [min(k, 3), '-$.1aA{}()"'], " ->\n*[b] c\n}\n"]})
        out.append({"name": "variants%d" % k, "parts": ["a = {1 ->", [k, "*[]a1 \n\r}"], "*[b] c\n}\n"]})
        out.append({"name": "key%d" % k, "parts": ["a = {1 ->\n*[", [k, "a1-. \n_]"], "] c\n}\n"]})
        out.append({"name": "string%d" % k, "parts": ['a = {"', [k, '"\\uU0fG \n\r{'], '"}\n']})
    for k in range(1, m + 1):
        out.append({"name": "function%d" % k, "parts": ["a = {A", [k, "AZ09az_-.["], "()}\n"]})
        out.append({"name": "names%d" % k, "parts": ["a = {$a", [k, "AZ09az_-.[}"], "}\n"]})
    out.append({"name": "u4", "parts": ['a = {"\\u', 4, '"}\n']})
    out.append({"name": "U6", "parts": ['a = {"\\U01', 4, '"}\n']})
    return out


def jobs(tier):
    if tier == "quick":
        return snippets.windows(snippets.EXPRESSIONS, [(1, 1), (0, 1)]) \
            + snippets.windows(snippets.EXPRESSIONS, [(2, 2)], stride=2) + shapes(3, 3) + snippets.big() \
            + snippets.prefixes(snippets.EXPRESSIONS) + snippets.pairs(snippets.EXPRESSIONS, 3)
    return snippets.windows(snippets.EXPRESSIONS, [(1, 1), (0, 1), (2, 2), (0, 2), (4, 2)]) + shapes(4, 4) + snippets.big(120, ((0, 1), (2, 2))) \
        + snippets.prefixes(snippets.EXPRESSIONS, 2) + snippets.pairs(snippets.EXPRESSIONS)
