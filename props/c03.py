"""C03 entries are split and recognised exactly as the Fluent grammar prescribes."""
from spec import conform, snippets

ID = "C03"
EXPECT = ["Message", "Term", "Junk", "Comment", "GroupComment", "ResourceComment"]
BOUNDS = ("every string of up to 5 (thorough 7) arbitrary code points; entry snippets with each position replaced by "
          "1..2 (thorough 3) or extended by 1..2 (thorough 3) arbitrary code points; "
          "any snippet cut off anywhere and continued by 0..1 arbitrary code points (thorough 2); two places at once opened to 1 each (every 2nd such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")
run = conform.run


def jobs(tier):
    if tier == "quick":
        return snippets.free(5) + snippets.big() + snippets.pairs(snippets.ENTRIES, 2) + snippets.prefixes(snippets.ENTRIES) + snippets.windows(snippets.ENTRIES, [(1, 1), (0, 1), (2, 2), (0, 2), (4, 2)])
    return snippets.free(7) + snippets.big(120) + snippets.pairs(snippets.ENTRIES) + snippets.prefixes(snippets.ALL, 2) + snippets.windows(snippets.ENTRIES, [(1, 1), (0, 1), (2, 2), (0, 2), (4, 2), (3, 3), (0, 3)])
