"""Shared harness: the parse result against the reference parser."""
from fluent.syntax import parse
from spec import grammar


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    got = grammar.dump(parse(s).body)
    want = grammar.parse(s)
    for e in want:
        E.tag(e[0])
    grammar.compare(E, got, want, "body")
    E.observe(got)
