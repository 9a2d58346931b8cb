"""C09 comments: level, content and attachment."""
from spec import conform, snippets

ID = "C09"
EXPECT = ["Message", "Comment", "GroupComment", "ResourceComment", "Junk"]
BOUNDS = ("comment snippets with each position replaced by 1..2 (thorough 3) or extended by 1..2 arbitrary code points; "
          "# followed by up to 5 (thorough 7) characters out of # space LF CR a = -, at the end and before a message; "
          "two places at once opened to 1 each (any such pair; thorough: of every snippet); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")
run = conform.run


def shapes(n):
    out = []
    for k in range(n + 1):
        out.append({"name": "shape%d" % k, "parts": ["#", [k, "# \n\ra=-"]]})
        out.append({"name": "before-message%d" % k, "parts": ["# c", [k, "# \n\rab="], "m = v\n"]})
    return out


def jobs(tier):
    if tier == "quick":
        return snippets.windows(snippets.COMMENTS, [(1, 1), (0, 1), (2, 2), (0, 2)]) + snippets.pairs(snippets.COMMENTS) + shapes(5) + snippets.big(40, only=["comment", "entries"])
    return snippets.windows(snippets.COMMENTS, [(1, 1), (0, 1), (2, 2), (0, 2), (3, 3), (0, 3)]) + snippets.pairs(snippets.ALL) + shapes(7) + snippets.big(200, only=["comment", "entries"])
