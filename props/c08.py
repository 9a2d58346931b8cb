"""C08 CRLF and LF line endings are interchangeable."""
from fluent.syntax import parse
from spec import grammar, snippets

ID = "C08"
EXPECT = ["Message", "Junk", "Comment"]
NOCR = [[0, 12], [14, 0x10FFFF]]
LF = {k: v.replace("\r\n", "\n") for k, v in snippets.ALL.items()}
BOUNDS = ("every string of up to 5 (thorough 6) code points other than CR, and every snippet with each position replaced by "
          "1 (thorough 2) or extended by 1..2 such code points, with all, or every second, line break written as CRLF; "
          "two places at once opened to 1 each (every 8th such pair; thorough: all); "
          "and long texts (up to 26 arguments, 20 levels, 25 entries, 1000 characters) opened at places spread over them")


def jobs(tier):
    out = []
    specs = [(1, 1), (0, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2), (0, 2)]
    for k in range(6 if tier == "quick" else 7):
        for alt in (0, 1, 2):
            out.append({"name": "free%d/%d" % (k, alt), "parts": [[k, NOCR]], "alt": alt})
    for name in LF:
        base = LF[name]
        for j in snippets.pairs({name: base}, 8 if tier == "quick" else 1, NOCR):
            j["alt"] = len(out) % 3
            out.append(j)
        for drop, free in specs:
            for pos in range(0, len(base) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos),
                            "parts": snippets.window(base, pos, drop, free, NOCR), "alt": pos % 3})
    for j in snippets.big(12 if tier == "quick" else 60):
        out.append({"name": j["name"], "parts": [[p, NOCR] if isinstance(p, int) else p for p in j["parts"]], "alt": len(out) % 3})
    return out


def crlf(s, alt):
    parts = s.split("\n")
    out = parts[0]
    for i in range(1, len(parts)):
        out = out + ("\n" if alt and (i + alt) % 2 else "\r\n") + parts[i]
    return out


def unify(body):
    out = []
    for e in body:
        if e[0] == "Junk":
            e = ("Junk", e[1].replace("\r\n", "\n"))
        out.append(e)
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    t = crlf(s, job["alt"])
    a = parse(s)
    b = parse(t)
    for e in a.body:
        E.tag(type(e).__name__)
    grammar.compare(E, unify(grammar.dump(b.body)), unify(grammar.dump(a.body)), "CRLF body")
    E.check(len(a.body) == len(b.body), "different number of entries")
    for i in range(len(a.body)):
        if type(a.body[i]).__name__ == "Junk":
            ca = [n.code for n in a.body[i].annotations]
            cb = [n.code for n in b.body[i].annotations]
            E.check(ca == cb, "different error for CRLF")
    E.observe(grammar.dump(b.body))
