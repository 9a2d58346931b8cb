"""C07 a broken entry never damages its well-formed neighbours."""
from fluent.syntax import parse
from spec import grammar, snippets

ID = "C07"
EXPECT = ["junk-before", "junk-after", "clean"]
BROKEN = dict(snippets.EXPRESSIONS)
BROKEN.update(snippets.ENTRIES)
BROKEN.update(snippets.COMMENTS)
BROKEN.update(snippets.PATTERNS)
TAILS = {"msg": "\nm = v\n", "term": "\n-m = v {1}\n .k = w\n", "sel": "\nm = { $s ->\n *[o] v\n }\n",
         "attr": "\nm =\n .k = w\n", "upper": "\nMz-9 = v\n", "last": "\nz = {\"Z\"}"}
CALL = "\nm = {F({ -t(k: 1) }, G(\"\", l: 2)) ->\n *[o] {\"\"}\n }\n .k = w\n"
# neighbours written with CRLF or preceded by comments; the whole part from the line end on must come out as it does alone
WIDE = {"crlf": "\r\nm = v\r\n .k = w\r\n", "note": "\n# a\nm = v\n", "bare": "\n#\n# b\nm = v\n", "crnote": "\r\n#\r\n# b\r\nm = v\r\n",
        "group": "\n## g\n\nm = v\n", "crres": "\r\n###\r\n### c\r\n\r\n-m = v\r\n", "end": "\n#\n# b", "crgroup": "\r\n##\r\n\r\n#\r\n"}
BOUNDS = ("any text of up to 5 (thorough 6) arbitrary code points, and any snippet with each position replaced by 1..2 or "
          "extended by 1 arbitrary code points or cut off at each position (some of them 120 times over), on its own lines between well-formed entries (with CR LF line ends, comments of all kinds and bare # lines among them); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    out = []
    frees = snippets.free(4 if tier == "quick" else 6)
    for t in TAILS:
        for j in frees:
            out.append({"name": t + ":" + j["name"], "parts": j["parts"] + [TAILS[t]], "tail": TAILS[t]})
    specs = [(1, 1), (0, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2), (0, 2)]
    for i, j in enumerate(snippets.windows(BROKEN, specs)):
        tail = TAILS[["msg", "upper"][i % 2]]
        out.append({"name": "after:" + j["name"], "parts": j["parts"] + [tail], "tail": tail})
    for i, j in enumerate(snippets.windows(BROKEN, specs[:1])):
        if tier == "quick" and i % 2:
            continue
        tail = WIDE[list(WIDE)[i // 2 % len(WIDE)]]
        out.append({"name": "wide:" + j["name"], "parts": j["parts"] + [tail], "tail": tail, "wide": True})
    for t in WIDE:
        for j in snippets.free(2 if tier == "quick" else 4):
            out.append({"name": t + ":" + j["name"], "parts": j["parts"] + [WIDE[t]], "tail": WIDE[t], "wide": True})
        for name in BROKEN:
            base = BROKEN[name]
            for cut in range(1, len(base), 3 if tier == "quick" else 1):
                out.append({"name": "%s:cut:%s@%d" % (t, name, cut), "parts": [base[:cut], 1, WIDE[t]], "tail": WIDE[t], "wide": True})
    for name in BROKEN:
        base = BROKEN[name]
        for cut in range(1, len(base)):
            out.append({"name": "cut:%s@%d" % (name, cut), "parts": [base[:cut], 1, TAILS["term"]],
                        "tail": TAILS["term"]})
    for i, name in enumerate(BROKEN):
        base = BROKEN[name]
        for cut in range(2 + i % 5, len(base), 12 if tier == "quick" else 4):
            out.append({"name": "many:%s@%d" % (name, cut), "parts": [(base[:cut] + "\n") * 120, 1, CALL], "tail": CALL})
    for j in snippets.windows(BROKEN, [(1, 1)]) + snippets.free(4 if tier == "quick" else 5):
        out.append({"name": "before:" + j["name"], "parts": ["m = v\n"] + j["parts"], "head": True})
    for j in snippets.big(10 if tier == "quick" else 60):
        out.append({"name": "after:" + j["name"], "parts": j["parts"] + [TAILS["msg"]], "tail": TAILS["msg"]})
        out.append({"name": "before:" + j["name"], "parts": ["m = v\n"] + j["parts"], "head": True})
    return out


def strip(e):
    return e[:4] if e[0] in ("Message", "Term") else e


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    body = grammar.dump(parse(s).body)
    if job.get("head"):
        # what follows must not continue the first entry by itself
        c = s[6:].lstrip(" \n\r")[:1]
        E.assume(len(c) == 1)
        if s[6] == " " or c == "{" or c == "." or s[6] == "\n" or s[6] == "\r":
            E.tag("continues")
            return
        E.check(strip(body[0]) == ("Message", "m", [("Text", "v")], []), "a well-formed entry is changed by what follows")
        for e in body[1:]:
            if e[0] == "Junk":
                E.tag("junk-after")
        return
    want = strip(grammar.dump(parse(job["tail"]).body)[0])
    if job.get("wide"):
        if s[:len(s) - len(job["tail"])].split("\n")[-1][:1] == "#":
            E.tag("continues")      # the comment goes on, or belongs to what follows
            return
        whole = grammar.dump(parse(job["tail"]).body)
        E.check(len(body) >= len(whole), "a well-formed entry is missing")
        for got, want in zip(body[len(body) - len(whole):], whole):
            grammar.compare(E, got, want, "entries after broken text")
        E.tag("junk-before" if len(body) > len(whole) and body[-len(whole) - 1][0] == "Junk" else "clean")
        return
    E.check(len(body) > 0, "the well-formed entry is missing")
    grammar.compare(E, strip(body[-1]), want, "entry after broken text")
    if len(body) > 1 and body[-2][0] == "Junk":
        E.tag("junk-before")
    else:
        E.tag("clean")
    E.observe(body)
