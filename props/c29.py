"""C29 functions get exactly the evaluated arguments, and their failures stay contained."""
from fluent.runtime import FluentBundle
from fluent.runtime.errors import FluentReferenceError
from fluent.runtime.types import FluentNone
from spec import rt, snippets

ID = "C29"
EXPECT = ["clean", "errors", "called", "raised", "error:FluentReferenceError", "overridden"]
BASES = {
    "args": "m = <{F($n, \"s\", 1.5, $s, k: \"v\", j: 2)}>{$n}\n",
    "refs": "m = {F(a, a.b, -t, -t(x: 1), $z)} {F()}{F(-t.c)}\na = A{$s}\n .b = B\n-t = {$x}T\n .c = {F(\"q\", k: 3)}\n",
    "nested": "m = {F(F($n), G($n, k: 1), H(F(\"a\")))} x{F({$n}, {F(1)})}{L(1)}\n",
    "keys": "m = {F(x-y: 1, aB_9: \"s\", Z: 2, z-: 3)}{G(k-2_: 1.0, kw: 2, class: 3, args: 4)}\n",
    "select": "m = {F($n, k: -1) ->\n [0] {F($s)}\n [s] b\n *[o] {G(\"t\")}{$n}\n}!\n",
    "name": "m = {NUMBER($n)}{Q9_A-(1)} {F(\"\")}\n",
}
ERRORS = [KeyError("e"), TypeError("e"), ValueError("e"), IndexError("e"), ZeroDivisionError("e"), FluentReferenceError("e"),
          AttributeError("e"), RuntimeError("e"), OSError("e"), StopIteration("e"), UnicodeError("e")]
BOUNDS = ("6 messages calling 2 functions with every kind of argument, each position replaced by 1 (thorough also extended by 1) "
          "arbitrary code point; integer arguments 0..20 and strings of 1 code point; the functions answer a string, an integer, a missing "
          "value or raise any of 11 exceptions; NUMBER replaced or not")


def jobs(tier):
    out = []
    for name in BASES:
        base = BASES[name]
        for what in range(3 + len(ERRORS)):
            out.append({"name": "%s:%d" % (name, what), "parts": [base], "what": what, "over": [False, True]})
        for drop, free in [(1, 1)] if tier == "quick" else [(1, 1), (0, 1)]:
            for pos in range(0, len(base) - drop + 1):
                for what in ([0, 3] if pos % 2 else [1, 6]) if tier == "quick" else [0, 1, 2, 3, 6]:
                    out.append({"name": "%s:-%d+%d@%d:%d" % (name, drop, free, pos, what), "what": what, "over": [False],
                                "parts": snippets.window(base, pos, drop, free)})
    return out


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    n, t = inp.int("n", 0, 20), inp.text("s", [1])
    over = inp.choice("over", job["over"])
    what = job["what"]
    got, want = [], []

    def answer(label, args, kwargs):
        got.append((label, args, kwargs))
        if what >= 3:
            raise ERRORS[what - 3]
        if what == 2:
            return FluentNone("none")
        return "s" if what == 0 else 7

    def reference(label, pos, named):
        want.append((label, pos, named))
        if what >= 3:
            return None
        if what == 2:
            return ("none", "none")
        return ("str", "s") if what == 0 else ("num", 7, 0, {})

    def f(*args, **kwargs):
        r = answer("F", args, kwargs)
        return rt.number(r) if r == 7 else r

    def g(*args, **kwargs):
        r = answer("G", args, kwargs)
        return rt.number(r) if r == 7 else r

    fns = {"F": f, "G": g}
    refs = {"F": lambda pos, named: reference("F", pos, named), "G": lambda pos, named: reference("G", pos, named)}
    if over:
        fns["NUMBER"] = f
        refs["NUMBER"] = refs["F"]
    # other bundles have functions of their own
    others = {"F": lambda *a, **k: "other", "L": lambda *a, **k: "other", "DATETIME": lambda *a, **k: "other"}
    FluentBundle(["en-US"], functions=others)
    b, r = rt.bundle([s], functions=fns, reffuncs=refs)
    FluentBundle(["en-US"], functions=others)
    E.check(len(fns) == (3 if over else 2), "the given functions were changed")
    args, ref = {"n": n, "s": t}, {"n": ("num", n, 0, {}), "s": ("str", t)}
    for label, real, value in rt.patterns(b, r):
        del got[:]
        del want[:]
        try:
            text, errors = r.format(value, dict(ref))
        except rt.evaluate.Unspecified:
            continue
        shown, raised = b.format_pattern(real, args)
        E.check(shown == text, "another text")
        E.observe(shown)
        rt.same_errors(E, raised, errors)
        E.check(len(got) == len(want), "another number of calls")
        for i in range(len(want)):
            E.check(got[i][0] == want[i][0], "another function is called")
            E.check(len(got[i][1]) == len(want[i][1]), "another number of arguments")
            for j in range(len(want[i][1])):
                E.check(rt.same_value(got[i][1][j], want[i][1][j]), "another argument")
            E.check(len(got[i][2]) == len(want[i][2]), "other named arguments")
            for k in want[i][2]:
                E.check(k in got[i][2], "a named argument is missing")
                E.check(rt.same_value(got[i][2][k], want[i][2][k]), "another named argument")
            E.check(list(got[i][2]) == list(want[i][2]), "named arguments in another order")
            E.tag("called")
            if over:
                E.tag("overridden")
        if what >= 3 and len(got) > 0:
            found = False
            for e in raised:
                if e is ERRORS[what - 3]:
                    found = True
            E.check(found, "the exception of a function is not reported")
            E.tag("raised")
        for kind, _ in errors:
            E.tag("error:" + str(kind))
        E.tag("errors" if errors else "clean")
