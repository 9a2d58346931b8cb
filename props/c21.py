"""C21 formatting means what the Fluent semantics say."""
from spec import rt, snippets

ID = "C21"
MAX_STEPS = 2000000
EXPECT = ["clean", "errors", "error:FluentReferenceError", "error:TypeError", "error:FluentCyclicReferenceError"]
BASES = {
    "vars": ("m = x {$n} y {$s}{$u}\n", {"n": ("int", -1500, 1500), "s": ("str", [2])}),
    "refs": ("m = {a} {b.c}{-t}{-t.d}\na = A\nb =\n .c = C{$s}\n-t = T\n .d = D\n", {"s": ("str", [1])}),
    "term": ("m = {-t(x: 1, y: \"z\")}|{$x}\n-t = {$x}{$y}{$s}\n", {"s": ("str", [1]), "x": ("int", 5, 7)}),
    "sel": ("m = {$n ->\n [0] z\n [one] o{$n}\n *[few] f{$s}\n}\n", {"n": ("int", -3, 30), "s": ("str", [1])}),
    "sels": ("m = {$s ->\n [a] 1\n [b1] 2\n *[c] {$s}\n}\n", {"s": ("str", [2])}),
    "tsel": ("m = {-t.g ->\n [x] X\n *[y] Y\n} z\n-t = v\n .g = x\n", {}),
    "num": ("m = {NUMBER($n, minimumFractionDigits: 2)} {NUMBER(1.5)}\n", {"n": ("int", -20, 20)}),
    "lit": ("m = {\"s\"}{12}{1.50} {{$n}}{{\"t\"}}\n", {"n": ("int", 0, 3)}),
    "fun": ("m = {F($s)} {NUMBER($s)}{NUMBER(m.a)}\n .a = b\n", {"s": ("str", [1])}),
    "const": ("m = a{\"-\"}b{\"-\"}{\"a\"}c{1}{1}{\"-\"}\nn = x{\"x\"}\n", {}),
    "dup": ("m = {a.b}{-t.c ->\n [x] X\n [x] Z\n *[y] Y\n}\na = A\n .b = 1\n .b = 2\n-t = T\n .c = y\n .c = x\n", {}),
    "cyc": ("a = {b} x\nb = {c}\nc = {a}{$n}\n", {"n": ("int", 0, 1)}),
    "bad": ("m = {$l} {$n}\n", {"l": ("list",), "n": ("dec", -2005, 2005, 3)}),
}
BIG = {
    "chain": ("".join("m%d = x{m%d} {-t%d}\n" % (k, k + 1, k) for k in range(24)) + "m24 = end {$n}{m24.a}\n .a = A\n"
              + "".join("-t%d = t%d\n" % (k, k) for k in range(24)), {"n": ("int", 0, 3)}),
    "wide": ("m = " + " ".join("t%d {$n}" % k for k in range(18)) + "\n" + "".join(" .a%d = {$s}v%d\n" % (k, k) for k in range(18)),
             {"n": ("int", 0, 3), "s": ("str", [1])}),
    "keys": ("m = {$n ->\n" + "".join(" [%d] v%d\n" % (k, k) for k in range(20)) + " [one] w\n *[other] o{$n}\n}\n"
             "n = {$s ->\n" + "".join(" [k%d] v%d\n" % (k, k) for k in range(20)) + " *[z] {$s}\n}\n",
             {"n": ("int", -3, 40), "s": ("str", ["k", 1])}),
    "args": ("m = {F(" + ", ".join("n%d: %d" % (k, k) for k in range(20)) + ")}{-t(" + ", ".join("n%d: %d" % (k, k) for k in range(20))
             + ")}\n-t = " + "".join("{$n%d}" % k for k in range(21)) + "\n", {}),
    "nest": ("m = " + "{" * 20 + "\"x\"" + "}" * 20 + "{$n ->\n *[o] " * 8 + "{$s}" + "\n}" * 8 + "\n", {"n": ("int", 0, 3), "s": ("str", [1])}),
    "long": ("m = " + "word " * 60 + "{$s}" + "w" * 80 + "\n    " + "x" * 100 + "\n", {"s": ("str", [1])}),
}
BOUNDS = ("13 small resources covering every kind of expression, each with every position replaced by 1 (thorough 1..2) or "
          "extended by 1 arbitrary code points; integer arguments up to +-1500, 3-decimal fractions, strings of up to 2 "
          "arbitrary code points, missing and unsupported arguments; every message and attribute formatted; 6 long resources "
          "(24 references deep, 20 variants, 18 placeables, 20 arguments, 600 characters) opened at places spread over them")


def jobs(tier):
    out = []
    specs = [(1, 1), (0, 1)] if tier == "quick" else [(1, 1), (0, 1), (2, 2)]
    for name in BASES:
        base, args = BASES[name]
        out.append({"name": name, "parts": [base], "args": args})
        for drop, free in specs:
            for pos in range(0, len(base) - drop + 1):
                out.append({"name": "%s:-%d+%d@%d" % (name, drop, free, pos), "args": args,
                            "parts": snippets.window(base, pos, drop, free)})
    for name in BIG:
        base, args = BIG[name]
        out.append({"name": "big-" + name, "parts": [base], "args": args})
        spots = 8 if tier == "quick" else 60
        for k in range(spots):
            pos = len(base) * (2 * k + 1) // (2 * spots)
            out.append({"name": "big-%s@%d" % (name, pos), "args": args, "parts": snippets.window(base, pos, 0, 1)})
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    args, ref = rt.arguments(inp, job["args"])
    b, r = rt.bundle([s])
    rt.agree(E, b, r, args, ref)
