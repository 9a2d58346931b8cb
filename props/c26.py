"""C26 expansion is bounded: too many parts or too long placeables abandon the pattern, and only it."""
import fluent.runtime.resolver as resolver
from spec import rt

ID = "C26"
EXPECT = ["clean", "error:ValueError", "long", "abandoned"]
MAX_STEPS = 6000000
FORMS = {
    "alone": "m = {$s}\n", "mid": "m = a {$s} b\n", "term": "m = x {-t(s: \"ab\")}{-u}\n-t = {$s}{$s}\n-u = abc\n",
    "msg": "m = {a}{a}\na = <{$s}>\n", "sel": "m = {$n ->\n [1] x\n *[o] {$s}{$s}\n} z\n", "fun": "m = {F($s)} {F(a)}\na = {$s}{$s}\n",
    "nest": "m = {{{$s}}} {{$s}}\n", "solo": "m = {a}\na = {b}\nb = {$s}\n", "twice": "m = {a}{c}\na = {$s}{$s}\nc = {a}{a}\n",
}
# families of expanding messages: each line refers to the next ones
FAN = {
    "lol": "m = {a}{a}\na = {b}{b}\nb = {c}{c}\nc = x\n",
    "free": ["m = {", [1, "abcz"], "}{", [1, "abc"], "}\na = x{", [1, "bc"], "}{", [1, "bc"], "}\nb = {c}{$s}y\nc = z\n"],
    "sel": "m = {$n ->\n [1] {a}{a}\n *[o] {b}{a}\n} t\na = {b}{b}\nb = v{$s}\n",
    "term": "m = {-a}{-a} {-b}\n-a = {-b}{-b}x\n-b = {\"q\"}y\n",
    "solo": "m = {a}{a}\na = {b}\nb = {c}{c}\nc = {$s}\n",
    "attr": "m = {a.x}{a.x}{a}\na = {b}-\n .x = {b}{b}\nb = {$s}.\n",
}
BOUNDS = ("9 forms of showing a string argument of 0, 1, 1250, 1251, 2499, 2500 or 2501 characters (the first arbitrary, or of a subclass of str); patterns of "
          "999..1001 placeables; 'billion laughs' of depth 1..12 and fan-out 2..4; and, with the two limits set to every value in "
          "0..14 and 0..6, 6 families of expanding messages (one of them every choice of 4 reference targets) and the 9 forms with "
          "strings of 0..4 arbitrary characters")


def jobs(tier):
    out = []
    for f in FORMS:
        for n in (0, 1, 1250, 1251, 2499, 2500, 2501):
            out.append({"name": "len:%s:%d" % (f, n), "kind": "len", "form": f, "n": n})
        for n in range(0, 3 if tier == "quick" else 5):
            out.append({"name": "limit:%s:%d" % (f, n), "kind": "limit", "form": f, "n": n})
    for n in (999, 1000, 1001):
        out.append({"name": "wide:%d" % n, "kind": "wide", "n": n})
    for f in FAN:
        out.append({"name": "parts:" + f, "kind": "parts", "form": f})
    for k in (2, 4) if tier == "quick" else (2, 3, 4, 9):
        for d in (1, 2, 4, 5, 6, 9, 10, 12) if tier == "quick" else range(1, 16):
            out.append({"name": "bomb:%d^%d" % (k, d), "kind": "bomb", "fan": k, "depth": d})
    return out


def f(x):
    return x


def reff(pos, named):
    return pos[0]


class Text(str):
    """An application's own kind of string."""


def build(sources):
    return rt.bundle(sources, functions={"F": f}, reffuncs={"F": reff})


def after(E, b):
    """The bundle goes on working."""
    text, errors = b.format_pattern(b.get_message("after").value, {"s": "w"})
    E.check(text == "ok w" and errors == [], "a later formatting is affected")


def run(E, inp, job):
    kind = job["kind"]
    tail = "after = ok {$s}\n"
    saved = (resolver.Pattern.MAX_PARTS if hasattr(resolver.Pattern, "MAX_PARTS") else None,
             resolver.MAX_PART_LENGTH if hasattr(resolver, "MAX_PART_LENGTH") else None)
    try:
        if kind in ("len", "limit"):
            n = job["n"]
            v = inp.text("s", [min(n, 2 if kind == "len" else n)])
            if n > 2:
                v = v + "x" * (n - len(v))
            b, r = build([FORMS[job["form"]] + tail])
            if kind == "limit":
                if saved[1] is None:
                    return
                limit = inp.int("limit", 0, 6)
                b.get_message("after")
                resolver.MAX_PART_LENGTH = limit
                r.max_length = limit
            args, ref = {"s": v, "n": 2}, {"s": ("str", v), "n": ("num", 2, 0, {})}
            if kind == "len" and n > 1000 and inp.bool("own"):
                args["s"] = Text("x" * n)
                ref["s"] = ("str", "x" * n)
            if n > 2500:
                E.tag("long")
        elif kind == "wide":
            b, r = build(["m = " + "{$s}" * job["n"] + "\n" + tail])
            v = inp.text("s", [1])
            args, ref = {"s": v}, {"s": ("str", v)}
        elif kind == "parts":
            if saved[0] is None:
                return
            src = FAN[job["form"]]
            s = src if isinstance(src, str) else inp.text("source", src)
            b, r = build([s + tail])
            limit = inp.int("limit", 0, 14)
            resolver.Pattern.MAX_PARTS = limit
            r.max_parts = limit
            v = inp.text("s", [1])
            args, ref = {"s": v, "n": inp.int("n", 1, 2)}, {"s": ("str", v)}
            ref["n"] = ("num", args["n"], 0, {})
        else:
            src = "m = {a0}{a0}\n"
            for i in range(job["depth"]):
                src = src + "a%d = " % i + ("{a%d}" % (i + 1)) * job["fan"] + "\n"
            src = src + "a%d = x{$s}\n" % job["depth"]
            b, r = build([src + tail])
            v = inp.text("s", [1])
            args, ref = {"s": v}, {"s": ("str", v)}
        value = r.messages["m"][0]
        text, errors = b.format_pattern(b.get_message("m").value, args)
        E.check(len(text) <= 1000 * 2500, "the result is longer than the limits allow")
        if text == "{???}":
            E.tag("abandoned")
        rt.agree1(E, b, r, b.get_message("m").value, value, args, ref)
    finally:
        if saved[0] is not None:
            resolver.Pattern.MAX_PARTS = saved[0]
        if saved[1] is not None:
            resolver.MAX_PART_LENGTH = saved[1]
    after(E, b)
