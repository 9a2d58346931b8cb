"""C24 terms see only the arguments of the call."""
from spec import rt, snippets

ID = "C24"
EXPECT = ["clean", "errors", "same", "restored", "error:FluentFormatError"]
BODIES = {
    "var": "-t = <{$x}{$y}>\n .a = {$x}\n",
    "term": "-t = <{-u}{$x}{-u(x: 7)}{$x}>\n .a = {-u(y: \"b\")}\n-u = ({$x}{$y})\n",
    "msg": "-t = <{n}{$x}{n.c}>\n .a = {n}\nn = [{$x}{$y}]\n .c = {$y}\n",
    "sel": "-t = {$x ->\n [1] one {$y}\n [a] a\n *[b] {-u}{$x}\n}\n .a = {$y ->\n [b] B\n *[o] {$z}\n}\n-u = {$x}\n",
    "fun": "-t = {NUMBER($x, minimumFractionDigits: 1)}{$y}\n .a = {F($x)}{$x}{G(-u, $x)}\n-u = {$x}{$y}\n",
    "deep": "-t = {-u(x: \"q\")}{$x}\n .a = {-u.a}{$y}\n-u = {-v(y: 2)}{$x}\n .a = {-v}{$y}\n-v = {$x}{$y}\n",
}
CALLS = ["-t", "-t()", "-t(x: 1)", "-t(x: \"a\", y: \"b\")", "-t($x, x: 1)", "-t(y: 2, x: -1.5)", "-t($y)", "-t(z: 1)"]
BOUNDS = ("6 groups of terms that show, select on, pass on and call functions with variables x 8 call forms, shown and selected on (thorough: with "
          "each position replaced by 1 arbitrary code point; quick: the call only); external arguments: any integers 0..9, "
          "strings of 1 code point, or missing, in any combination (x always an integer where a position is arbitrary), for the two formattings compared")


def jobs(tier):
    out = []
    for name in BODIES:
        for i, c in enumerate(CALLS):
            ca = c.replace("-t", "-t.a")
            m = ("m = {" + c + "}\nk = {$x}{" + c + "}{$y}{$x}\ns = {" + ca + " ->\n [x] X\n [a] A\n [y] Y\n [B] B\n *[o] {" + ca
                 + " ->\n  [b] b\n *[q] {$x}\n }{$x}\n}\n")
            out.append({"name": "%s:%d" % (name, i), "parts": [BODIES[name], m], "few": False})
        call = "-t(x: \"a\", y: 2)"
        src = BODIES[name] + "m = {" + call + "}\n"
        lo = 0 if tier == "thorough" else len(BODIES[name]) + 4
        for pos in range(lo, len(src)):
            out.append({"name": "%s@%d" % (name, pos), "parts": snippets.window(src, pos, 1, 1), "few": True})
    return out


def f(x):
    return "f"


def g(*a):
    return a[0]


def reff(pos, named):
    return ("str", "f")


def refg(pos, named):
    return pos[0]


def external(inp, tag, few):
    """Arguments x and y of any kind, or missing."""
    args, ref = {}, {}
    for name in ("x", "y"):
        k = inp.choice(tag + name + "kind", (["int"] if few else ["int", "str", "none"]) if name == "x" else ["str", "none"])
        if k == "int":
            v = inp.int(tag + name, 0, 9)
            args[name], ref[name] = v, ("num", v, 0, {})
        elif k == "str":
            v = inp.text(tag + name, [1])
            args[name], ref[name] = v, ("str", v)
    return args, ref


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    args, ref = external(inp, "p", job["few"])
    other, _ = external(inp, "q", job["few"])
    b, r = rt.bundle([s], functions={"F": f, "G": g}, reffuncs={"F": reff, "G": refg})
    if "m" in r.messages and r.messages["m"][0] is not None:
        value = r.messages["m"][0]
        if len(value) == 1 and value[0][0] == "Placeable" and value[0][1][0] == "TermRef":
            p = b.get_message("m").value
            one, e1 = b.format_pattern(p, args)
            two, e2 = b.format_pattern(p, other)
            none, e3 = b.format_pattern(p)
            E.check(one == two and one == none, "a term shows an argument that was not passed to it")
            E.check(len(e1) == len(e2) and len(e1) == len(e3), "a term reports other errors")
            E.tag("same")
    if "k" in r.messages:
        E.tag("restored")
    rt.agree(E, b, r, args, ref)
