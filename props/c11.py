"""C11 serializing with junk writes every junk back verbatim and in place."""
from fluent.syntax import ast, parse, serialize
from spec import grammar, snippets
from props import c10

ID = "C11"
EXPECT = ["junk", "mixed"]
BOUNDS = c10.BOUNDS
jobs = c10.jobs


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    first = parse(s)
    want = grammar.dump(first.body)
    if c10.lone_cr(s):
        E.known("lone-cr")
    text = serialize(first, with_junk=True)
    pos = 0
    for e in first.body:
        if isinstance(e, ast.Junk):
            E.tag("junk")
            at = text.find(e.content, pos)
            E.check(at >= 0, "junk is not written back verbatim")
            pos = at + len(e.content)
    if "\r" in s:
        # junk keeps its raw line endings
        E.tag("cr")
    got = grammar.dump(parse(text).body)
    if len(want) > 1:
        E.tag("mixed")
    E.check(len(got) == len(want), "re-parsing changes the number of entries")
    for i in range(len(want)):
        if want[i][0] == "Junk":
            E.check(got[i][0] == "Junk" and got[i][1].strip(" \n\r") == want[i][1].strip(" \n\r"), "junk changed")
        else:
            grammar.compare(E, got[i], want[i], "re-parsed body")
    E.observe(text)
