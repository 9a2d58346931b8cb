"""C13 the JSON form of a syntax tree is faithful in both directions."""
import json
from fluent.syntax import ast, parse
from fluent.syntax.ast import from_json
from spec import snippets, tree

ID = "C13"
EXPECT = ["Message", "Junk"]
BOUNDS = ("trees of every string of up to 4 (thorough 6) arbitrary code points and of every snippet with each position "
          "replaced by 1 (thorough 2) or extended by 1 arbitrary code points, with spans and annotations; "
          "two places at once opened to 1 each (every 16th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    if tier == "quick":
        return snippets.free(4) + snippets.big(8) + snippets.pairs(snippets.ALL, 16) + snippets.windows(snippets.ALL, [(1, 1)])
    return snippets.free(6) + snippets.big(120) + snippets.pairs(snippets.ALL) + snippets.windows(snippets.ALL, [(1, 1), (0, 1), (2, 2)])


def same_json(E, n, j, where):
    """j is the JSON form of n: one key per field, plus the type name."""
    if tree.is_node(n):
        E.check(isinstance(j, dict), "a node is not an object in JSON")
        E.check(j["type"] == type(n).__name__, "wrong type name in JSON")
        fields = sorted(vars(n))
        E.check(sorted(j) == sorted(fields + ["type"]), "JSON keys are not the node's fields")
        for f in fields:
            same_json(E, getattr(n, f), j[f], where + "." + f)
    elif isinstance(n, (list, tuple)):
        E.check(isinstance(j, list) and len(j) == len(n), "list length in JSON")
        E.check(j is not n, "the tree and its JSON form share a list")
        for i in range(len(n)):
            same_json(E, n[i], j[i], where)
    elif n is None or isinstance(n, bool):
        E.check(j is n, "wrong constant in JSON")
    else:
        E.check(j == n, "wrong value in JSON at " + where)


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    r = parse(s)
    for e in r.body:
        E.tag(type(e).__name__)
    before = tree.plain(r)
    j = r.to_json()
    same_json(E, r, j, "")
    tree.same(E, tree.plain(r), before, "to_json changed the tree")
    k = json.loads(json.dumps(j))
    back = from_json(k)
    same_json(E, back, k, "")
    E.check(type(back) is ast.Resource, "from_json gives another type")
    tree.same(E, tree.plain(back), before, "from_json(to_json(tree)) differs")
    E.check(back.equals(r, ignored_fields=[]) and r.equals(back), "from_json(to_json(tree)) is not equal to the tree")
    E.check(back.to_json() == j, "to_json(from_json(json)) differs")
    text = str(r)
    E.check(json.loads(text) == k, "str(tree) is not its JSON")
    # the mapping function sees every node, bottom up, and replaces its object
    seen = []

    def mark(obj):
        seen.append(obj["type"])
        obj.pop("span", None)
        return obj

    slim = r.to_json(mark)
    E.check(sorted(seen) == sorted(type(n).__name__ for n in tree.nodes(r)), "the mapping function misses nodes")
    E.check(seen[-1] == "Resource", "the mapping function is not applied bottom up")
    bare = from_json(slim)
    E.check(bare.equals(r), "tree without spans is not equal")
    E.observe(j)
