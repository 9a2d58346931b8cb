"""C25 reference cycles are cut and reported, acyclic references never are."""
from spec import rt

ID = "C25"
EXPECT = ["cyclic", "acyclic", "error:FluentCyclicReferenceError", "clean"]
MAX_STEPS = 2000000
# {}: a reference position, holding any of the names of the job
FORMS = {
    "mid": "x{}y", "solo": "{}", "two": "{}{}", "wrap": "{{}}", "sel": "{$n ->\n [1] {}\n *[o] a{}\n}",
    "solosel": "{$n ->\n *[o] {}\n}", "attr": "v\n .a = {}", "attr2": "{}\n .a = {}", "arg": "{F({})}", "key": "{{} ->\n [v] a\n *[b] {}\n}",
    "num": "{NUMBER({})}{}", "leaf": "v",
}
BOUNDS = ("every graph over 3 messages or terms (thorough 4) whose bodies are any of 12 forms of 1..2 references each (text around "
          "them, alone, nested placeables, variants, selectors, function arguments, attributes), each reference naming any of "
          "the entries or their attributes or nothing; the first entry and its attribute formatted twice")


def jobs(tier):
    out = []
    names = sorted(FORMS)
    n = 3
    combos = []
    for f in names:
        combos.append([f] * n)
    for i, f in enumerate(names):
        for j, g in enumerate(names):
            if tier == "thorough" or (i + j) % 2:
                combos.append([f, g, names[(i * 5 + j * 7) % len(names)]])
    if tier == "thorough":
        for i, f in enumerate(names):
            combos.append([f, names[(i + 3) % len(names)], names[(i + 5) % len(names)], names[(i + 7) % len(names)]])
    for combo in combos:
        for kind in ("m", "t", "mix"):
            if kind == "mix" and tier == "quick" and combo[0] != combo[1]:
                continue
            out.append({"name": kind + ":" + "/".join(combo), "entries": source(combo, kind), "apart": len(out) % 2})
    return out


def source(combo, kind):
    """Entries a, b, c... as messages or terms; each reference is a free name (and attribute)."""
    ids = "abcd"[:len(combo)]
    entries = []
    for k, f in enumerate(combo):
        parts = []
        entries.append(parts)
        term = kind == "t" and k > 0 or kind == "mix" and k == 1
        parts.append(("-" if term else "") + ids[k] + " = ")
        pieces = FORMS[f].split("{}")
        for i, piece in enumerate(pieces):
            if i:
                before = pieces[i - 1]
                target_term = kind == "t" or kind == "mix" and (i + k) % 2
                bare = before.endswith(("(", "{"))
                sigil = "-" if target_term else ""
                if before.endswith("{") and piece.startswith(" ->") and not target_term:
                    sigil = "-"          # selectors are attributes of terms
                    parts.extend(["-", [1, ids], ".a"])
                else:
                    if not bare:
                        parts.append("{")
                    parts.append(sigil)
                    parts.append([1, ids + "z"])
                    if before.endswith("{") and piece.startswith(" ->"):
                        parts.append(".a")
                    elif not target_term and i == 1 and "a" in f and k % 2:
                        parts.append(".a")
                    if not bare:
                        parts.append("}")
            parts.append(piece)
        parts.append("\n")
    return [[p for p in parts if p != ""] for parts in entries]


def fn(*args):
    return "f"


def reffn(pos, named):
    return ("str", "f")


def reach(r, table, name, attr, seen, stack):
    """Can resolving this pattern come back to a pattern being resolved?"""
    if name not in table:
        return False
    value, attrs = table[name]
    p = value if attr is None else attrs.get(attr)
    if p is None:
        return False
    for q in stack:
        if q is p:
            return True
    stack = stack + [p]
    for d in refs(p):
        if d[0] == "MsgRef":
            if reach(r, r.messages, d[1], d[2], seen, stack):
                return True
        elif reach(r, r.terms, d[1], d[2], seen, stack):
            return True
    return False


def refs(x):
    out = []
    if isinstance(x, (tuple, list)):
        if len(x) > 0 and x[0] in ("MsgRef", "TermRef"):
            out.append(x)
        for y in x:
            out.extend(refs(y))
    return out


def run(E, inp, job):
    entries = job["entries"]
    if job["apart"]:
        s = [inp.text("source%d" % i, entries[i]) for i in range(len(entries))]
    else:
        s = [inp.text("source", entries[0] + entries[1] + entries[2] + (entries[3] if len(entries) > 3 else []))]
    n = inp.int("n", 0, 1)
    b, r = rt.bundle(s, functions={"F": fn}, reffuncs={"F": reffn})
    for label, real, want in rt.patterns(b, r):
        mid, _, attr = label.partition(".")
        if mid != "a":
            continue
        cyclic = reach(r, r.messages, mid, attr if attr else None, [], [])
        text, errors = b.format_pattern(real, {"n": n})
        again, more = b.format_pattern(real, {"n": n})
        E.check(isinstance(text, str), "the result is no string")
        E.check(again == text and len(more) == len(errors), "formatting again differs")
        found = False
        for e in errors:
            if type(e).__name__ == "FluentCyclicReferenceError":
                found = True
        if not cyclic:
            E.check(not found, "a cycle is reported where there is none")
            E.tag("acyclic")
        elif found:
            E.tag("cyclic")
        rt.agree1(E, b, r, real, want, {"n": n}, {"n": ("num", n, 0, {})})
