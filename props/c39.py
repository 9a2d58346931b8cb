"""C39 the command-line tools print what the library computes."""
import json
from fluent.syntax import ast, parse, serialize
from fluent.syntax.ast import from_json
from spec import snippets, tree
from tools import fluentfmt, parse as parsetool, serialize as serializetool

ID = "C39"
EXPECT = ["Message", "Junk", "Comment"]
UTF8 = [[0, 0xD7FF], [0xE000, 0x10FFFF]]
BOUNDS = ("files holding every text of up to 3 (thorough 4) code points that UTF-8 can hold, and every snippet with every third (thorough: "
          "each) position replaced by 1 or extended by 1 such code point; tools/fluentfmt.py, tools/parse.py, and tools/serialize.py on the JSON of the tree with or "
          "without its junk")


def jobs(tier):
    out = snippets.free(3 if tier == "quick" else 4) + snippets.windows(snippets.ALL, [(1, 1), (0, 1)], stride=3 if tier == "quick" else 1)
    for j in out:
        j["parts"] = [p if isinstance(p, str) else [p, UTF8] for p in j["parts"]]
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    tree_ = parse(s)
    for e in tree_.body:
        E.tag(type(e).__name__)
    before = tree.plain(tree_)
    root = E.files({"in.ftl": s, "d/in.json": json.dumps(tree_.to_json())})
    read = fluentfmt.read_file(root + "/in.ftl")
    E.check(read == s, "fluentfmt reads another text")
    E.check(E.printed(fluentfmt.pretty_print, "ftl", read) == serialize(tree_) + "\n", "fluentfmt prints another text")
    read = parsetool.read_file(root + "/in.ftl")
    E.check(read == s, "parse reads another text")
    out = E.printed(parsetool.print_ast, "ftl", read)
    back = from_json(json.loads(out))
    tree.same(E, tree.plain(back), before, "parse prints another tree")
    data = serializetool.read_json(root + "/d/in.json")
    printed = E.printed(serializetool.pretty_print, "ftl", data)
    E.check(printed == serialize(tree_) + "\n", "serialize prints another text")
    E.observe(printed)
