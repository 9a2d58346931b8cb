"""C27 a bundle is a registry: what was added, first wins unless overriding, is what is found and shown."""
from fluent.runtime import FluentBundle, FluentResource

ID = "C27"
EXPECT = ["kept", "overridden", "found", "missing", "attribute", "term"]
MAX_STEPS = 2000000
BOUNDS = ("every history of 4 (thorough 5) operations on one bundle, each adding one of 3 resources with or without overriding, or "
          "looking up and formatting every entry; the resources hold 2 messages, a term, junk and a comment whose names, "
          "references and attribute names are any of 2 letters each; every lookup of 1- and 2-character names with any characters; "
          "45 (thorough 150) messages of which any is replaced between two rounds of formatting them all; "
          "every order of 4 references to a message, a term and an attribute of each, by names that may be missing; two entries of one name alike but for any of value, comment and attributes; number literals of 4300 to 10000 digits")
IDS = "ab"
NAMES = ["a", "b", "-a", "-b", "c", ""]


def jobs(tier):
    out = []
    n = 4 if tier == "quick" else 5
    for first in range(7):
        for second in range(7):
            out.append({"name": "history:%d:%d" % (first, second), "kind": "history", "ops": [first, second], "n": n})
    out.append({"name": "dup", "kind": "dup"})
    out.append({"name": "digits", "kind": "digits"})
    for term in (False, True):
        out.append({"name": "nearly:%s" % term, "kind": "nearly", "term": term})
    out.append({"name": "names", "kind": "names"})
    for first in range(4):
        out.append({"name": "refs:%d" % first, "kind": "refs", "first": first})
    out.append({"name": "many", "kind": "many", "count": 45 if tier == "quick" else 150})
    return out


def resource(inp, k):
    """(source, its entries in order as (is term, name, text, attributes)) with free names."""
    if k == 0:
        m, t = inp.text("m0", [[1, IDS]]), inp.text("t0", [[1, IDS]])
        r = inp.text("r0", [[1, IDS]])
        return (m + " = M0{-" + r + "}\n\n-" + t + " = T0\nb = B0\n",
                [(False, m, ["M0", r], {}), (True, t, ["T0"], {}), (False, "b", ["B0"], {})])
    if k == 1:
        m, at = inp.text("m1", [[1, IDS]]), inp.text("at1", [[1, IDS]])
        return ("# c\n-a = T1\njunk\n" + m + " =\n ." + at + " = M1\n",
                [(True, "a", ["T1"], {}), (False, m, None, {at: "M1"})])
    t = inp.text("t2", [[1, IDS]])
    return ("a = M2\n .a = A2\n-" + t + " = T2\n", [(False, "a", ["M2"], {"a": "A2"}), (True, t, ["T2"], {})])


def look(E, b, messages, terms):
    for name in NAMES:
        has = b.has_message(name)
        E.check(isinstance(has, bool), "has_message answers no boolean")
        want = None
        for k in messages:
            if k == name:
                want = messages[k]
        E.check(has == (want is not None), "has_message is wrong")
        try:
            m = b.get_message(name)
        except LookupError:
            m = None
        E.check((m is None) == (want is None), "get_message is wrong")
        E.tag("missing" if want is None else "found")
        if want is None:
            continue
        parts, attrs = want
        E.check((m.value is None) == (parts is None), "another value")
        if parts is not None:
            shown = parts[0]
            for r in parts[1:]:
                t = None
                for k in terms:
                    if k == r:
                        t = terms[k]
                shown = shown + (t[0] if t is not None else "{-" + r + "}")
                E.tag("term")
            text, errors = b.format_pattern(m.value)
            E.check(text == shown, "another message is shown")
            E.observe(text)
        E.check(len(m.attributes) == len(attrs), "other attributes")
        for at in attrs:
            E.check(at in m.attributes, "an attribute is missing")
            text, errors = b.format_pattern(m.attributes[at])
            E.check(text == attrs[at] and errors == [], "another attribute is shown")
            E.tag("attribute")


def run(E, inp, job):
    if job["kind"] == "names":
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource("a = 1\nbb = 2\n-a = 3\n-cc = 4\n"))
        name = inp.text("name", [inp.choice("n", [1, 2])])
        has = b.has_message(name)
        E.check(has == (name == "a" or name == "bb"), "has_message is wrong")
        try:
            m = b.get_message(name)
            E.check(has and m.id.name == name, "get_message answers another message")
        except LookupError:
            E.check(not has, "get_message misses a message")
        again = b.has_message(name)
        E.check(again == has, "has_message changes its mind")
        return
    if job["kind"] == "nearly":
        # two entries of one name that differ in any of value, comment, attribute name and text
        over, early = inp.bool("over"), inp.bool("early")
        v, k, w = inp.text("v", [[1, "vw"]]), inp.text("k", [[1, IDS]]), inp.text("w", [[1, "vw"]])
        note, more = inp.bool("note"), inp.bool("more")
        sigil = "-" if job["term"] else ""
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource("# c\n" + sigil + "m = v\n .a = v\nn = {" + sigil + "m} {" + sigil + "m.a ->\n [v] V\n [w] W\n *[o] O\n}\n"
                                      if job["term"] else "# c\nm = v\n .a = v\nn = {m} {m.a}\n"))
        if early:
            b.format_pattern(b.get_message("n").value)
        b.add_resource(FluentResource(("# c\n" if note else "") + sigil + "m = " + v + "\n ." + k + " = " + w + "\n" + (" .z = v\n" if more else "")), over)
        text, errors = b.format_pattern(b.get_message("n").value)
        if not over:
            v, k, w = "v", "a", "v"
        if job["term"]:
            want = v + " " + ("O" if k != "a" else "V" if w == "v" else "W")
        else:
            want = v + " " + (w if k == "a" else "{m.a}")
            E.check(len(b.get_message("m").attributes) == (2 if over and more else 1), "other attributes")
        E.check(text == want, "another definition is shown")
        E.check((errors == []) == (k == "a"), "errors do not tell what is missing")
        E.tag("overridden" if over else "kept")
        return
    if job["kind"] == "digits":
        long = "7" * inp.choice("digits", [4299, 4300, 4301, 9999])
        last = inp.text("last", [[1, "0123456789"]])
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource("a = {" + long + last + "}\nb = {$n ->\n [" + long + last + "] x\n *[o] y\n}\n .c = {a}\n"))
        for name in ("a", "b"):
            m = b.get_message(name)
            E.check(m.id.name == name, "another message is found")
            text, errors = b.format_pattern(m.value, {"n": 7})
            E.check(isinstance(text, str), "the result is no string")
            E.check(name == "a" or (text == "y" and errors == []), "another variant is shown")
        text, errors = b.format_pattern(m.attributes["c"])
        E.check(isinstance(text, str), "the result is no string")
        return
    if job["kind"] == "refs":
        x, y = inp.text("x", [[1, IDS]]), inp.text("y", [[1, IDS]])
        r, t = inp.text("r", [[1, IDS]]), inp.text("t", [[1, IDS]])
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource(x + " = M\n .k = K\n-" + y + " = T\n .k = L\n"))
        b.add_resource(FluentResource("m = {-" + t + "}\nn = {" + r + "}\no = {" + r + ".k}\np = {-" + t + ".k ->\n [L] s\n *[o] d\n}\n"))
        want = [("m", "T" if t == y else "{-" + t + "}"), ("n", "M" if r == x else "{" + r + "}"),
                ("o", "K" if r == x else "{" + r + ".k}"), ("p", "s" if t == y else "d")]
        order = [job["first"], inp.choice("second", range(4)), inp.choice("third", range(4)), inp.choice("fourth", range(4))]
        for k in order:
            text, errors = b.format_pattern(b.get_message(want[k][0]).value)
            E.check(text == want[k][1], "another entry is shown")
            E.check((errors == []) == (t == y if want[k][0] in "mp" else r == x), "errors do not tell what is missing")
        for name in (x, y, r, t):
            E.check(b.has_message(name) == (name == x), "has_message is wrong")
        E.tag("term")
        return
    if job["kind"] == "many":
        n = job["count"]
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource("".join("m%d = v%d {-t%d}\n .a%d = w%d\n-t%d = u%d\n" % (k, k, k, k, k, k, k) for k in range(n))))
        over = inp.bool("over")
        which = inp.int("which", 0, n - 1)
        for when in (0, 1):
            for k in range(n):
                E.check(b.has_message("m%d" % k), "has_message misses a message")
                m = b.get_message("m%d" % k)
                new = when and over and which == k
                text, errors = b.format_pattern(m.value)
                E.check(text == ("new " if new else "v%d u" % k) + str(k) and errors == [], "another message is shown")
                E.check(list(m.attributes) == (["b"] if new else ["a%d" % k]), "another attribute is found")
                text, errors = b.format_pattern(m.attributes["b" if new else "a%d" % k])
                E.check(text == ("n" if new else "w%d" % k), "another attribute is shown")
            if not when:
                b.add_resource(FluentResource("m" + str(which) + " = new " + str(which) + "\n .b = n\n"), over)
        return
    if job["kind"] == "dup":
        over = inp.bool("over")
        one, two = inp.text("one", [[1, IDS]]), inp.text("two", [[1, IDS]])
        x, y = inp.text("x", [[1, IDS]]), inp.text("y", [[1, IDS]])
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(FluentResource(one + " = 1\n ." + x + " = 3\n ." + y + " = 4\n" + two + " = 2\n"), over)
        same = one == two
        text, _ = b.format_pattern(b.get_message(one).value)
        E.check(text == ("2" if same and over else "1"), "the wrong duplicate wins")
        if not same:
            E.check(b.format_pattern(b.get_message(two).value)[0] == "2", "another message is shown")
        if not (same and over):
            attrs = b.get_message(one).attributes
            E.check(b.format_pattern(attrs[y])[0] == "4", "another attribute is shown")
            E.check(b.format_pattern(attrs[x])[0] == ("4" if x == y else "3"), "another attribute is shown")
        return
    b = FluentBundle(["en-US"], use_isolating=False)
    messages, terms = {}, {}
    made = {}
    for step in range(job["n"]):
        op = job["ops"][step] if step < len(job["ops"]) else inp.choice("op%d" % step, range(7))
        if op == 6:
            look(E, b, messages, terms)
            continue
        k, over = op // 2, op % 2 == 1
        if k not in made:
            made[k] = resource(inp, k)
        src, entries = made[k]
        b.add_resource(FluentResource(src), over)
        for term, name, parts, attrs in entries:
            into = terms if term else messages
            if name in into:
                E.tag("overridden" if over else "kept")
            if over or name not in into:
                into[name] = parts if term else (parts, attrs)
    look(E, b, messages, terms)
