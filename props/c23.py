"""C23 bidi isolation: interpolations are wrapped in FSI/PDI, nothing else changes."""
from fluent.runtime import FluentBundle, FluentResource
from spec import rt, snippets

ID = "C23"
EXPECT = ["clean", "errors", "marks", "no marks"]
FSI, PDI = "\u2068", "\u2069"
PLAIN = [[0, 0x2067], [0x206A, 0x10FFFF]]          # anything but the marks themselves
BASES = {
    "one": ("a = {$s}\nb = {$s} x\nc = x {$s}{$n}\nd = {\"l\"}{$s}\n", {"s": ("str", [[2, PLAIN]]), "n": ("int", -3, 1200)}),
    "refs": ("m = x {a} {b.c}{-t}{-t.d}\na = A\nb =\n .c = {$s}C\n-t = {$s}{$x}\n -t.d = D\n", {"s": ("str", [[1, PLAIN]])}),
    "nest": ("m = {{$s}} x {{$s}}{{\"t\"}}{{{$s}}}\nn = {{$s}}\n", {"s": ("str", [[1, PLAIN]])}),
    "sel": ("m = x {$n ->\n [one] a {$n}\n *[x] {$n}\n} {$n ->\n *[a] {\"b\"}{$n}\n}\n", {"n": ("int", 0, 3)}),
    "lit": ("m = {\"s\"}{12}{1.50} {\"\"}{\"a\"} {-0}\n", {}),
    "err": ("m = {$x}{a.b} {-t}{G()}{m} {$l}\n", {"l": ("list",)}),
    "fun": ("m = {NUMBER($n, minimumFractionDigits: 1)}{NUMBER($x)}|{-t(x: \"a\")}\n-t = <{$x}>{\"]\"}\n", {"n": ("int", 0, 11)}),
}
BOUNDS = ("7 small resources covering every kind of placeable and nesting, each with every position replaced by 1 or extended "
          "by 1 (thorough also 2 replaced by 2) arbitrary code points other than FSI and PDI; strings of 0..2 such code "
          "points, integers up to 1200, missing and unsupported arguments; every message and attribute formatted with and "
          "without isolation, and compared with the reference evaluator")


def jobs(tier):
    out = []
    specs = [(1, 1), (0, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2)]
    for name in BASES:
        base, args = BASES[name]
        out.append({"name": name, "parts": [base], "args": args})
        if "s" in args:
            for k in (0, 1):
                out.append({"name": "%s:str%d" % (name, k), "parts": [base], "args": dict(args, s=("str", [[k, PLAIN]]))})
        for drop, free in specs:
            for pos in range(0, len(base) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "args": args,
                            "parts": [p if isinstance(p, str) else [p, PLAIN] for p in snippets.window(base, pos, drop, free)]})
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    args, ref = rt.arguments(inp, job["args"])
    if "\\u2068" in s or "\\u2069" in s:
        E.tag("escaped mark")
        return
    b, r = rt.bundle([s], isolating=True)
    plain = FluentBundle(["en-US"], use_isolating=False)
    plain.add_resource(FluentResource(s))
    for label, real, want in rt.patterns(b, r):
        mid, _, attr = label.partition(".")
        m = plain.get_message(mid)
        bare, _ = plain.format_pattern(m.attributes[attr] if attr else m.value, args)
        text, _ = b.format_pattern(real, args)
        depth = 0
        stripped = ""
        for c in text:
            if c == FSI:
                depth += 1
            elif c == PDI:
                depth -= 1
                E.check(depth >= 0, "an isolate is closed that was not opened")
            else:
                stripped = stripped + c
        E.check(depth == 0, "an isolate is left open")
        E.check(stripped == bare, "isolation changes the text itself")
        E.tag("marks" if len(text) != len(bare) else "no marks")
    rt.agree(E, b, r, args, ref)
