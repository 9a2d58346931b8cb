"""C48 formattings that overlap do not disturb each other."""
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone, FluentType
from spec import snippets, weave

ID = "C48"
EXPECT = ["alternating", "one after the other", "within", "errors", "cycle", "limit"]
BASES = {
    "refs": "m = {$n} {P()}{a}{-t(x: 2)}|{b.c}\na = A{P()}{$s}\n-t = {$x}{P()}{$n}\nb =\n .c = {P()}{m}{a}\n",
    "sel": "m = {P($n) ->\n [1] {P(\"a\")}{$s}\n *[two] {$v}{-t(x: \"q\")}\n}\n-t = {$x ->\n [q] {P()}{$x}\n *[o] {$s}\n}\na = {m}{P()}!\n",
    "cycle": "m = {P()}{a}\na = <{P()}{m}>{-t}\n-t = {P()}{-t}\n",
    "values": "m = {$v} {-t(x: 1)}{$v}\n-t = {$x}{$v}\n .a = {$v}\na = {$v}{F($v, k: 1)} {$w}\n",
}
MANY = "m = {P()}" + "{$c}" * 398 + "\na = " + "x{$c}" * 200 + "\nb = {m}{P()}{a}\nc = {P()}{m}{m}{m}\n"
BOUNDS = ("4 resources with each position replaced by 1 arbitrary code point, and one with up to 1200 parts; two formattings of any two of their patterns, each "
          "with its own arguments (integers 0..20, strings of 1 code point, a value of its own), in two threads under every schedule that "
          "changes over only where a function or a value is called (first 6, thorough 10, changes free), or one inside such a call of the other; in one bundle, or in two sharing the resource")


def jobs(tier):
    out = []
    quick = tier == "quick"
    for name in BASES:
        for how in ("threads", "inside"):
            for shared in (True, False):
                out.append({"name": "%s:%s:%s" % (name, how, shared), "parts": [BASES[name]], "how": how, "shared": shared,
                            "steps": 6 if quick else 10, "any": True})
        for pos in range(0, len(BASES[name]), 2 if quick else 1):
            out.append({"name": "%s@%d" % (name, pos), "parts": snippets.window(BASES[name], pos, 1, 1), "any": False,
                        "how": ["threads", "inside"][pos // 2 % 2], "shared": True, "steps": 2 if quick else 4})
    for how in ("threads", "inside"):
        out.append({"name": "many:" + how, "parts": [MANY], "how": how, "shared": True, "steps": 4, "any": True})
    return out


class Value(FluentType):
    def __init__(self, pause, text):
        self.pause = pause
        self.text = text

    def format(self, locale):
        self.pause()
        return self.text


def shown(got):
    text, errors = got
    return (text, [(type(e).__name__, str(e)) for e in errors])


def patterns(b, res):
    out = []
    seen = []
    for e in res.body:
        if type(e).__name__ == "Message" and e.id.name not in seen:
            seen.append(e.id.name)
            m = b.get_message(e.id.name)
            if m.value is not None:
                out.append((e.id.name, None))
            for k in m.attributes:
                out.append((e.id.name, k))
    return out


def find(b, where):
    m = b.get_message(where[0])
    return m.value if where[1] is None else m.attributes[where[1]]


class World:
    """What the functions and values call: who is running, and what happens there."""

    def __init__(self):
        self.at = None

    def pause(self):
        if self.at is not None:
            self.at()

    def p(self, *args, **kwargs):
        self.pause()
        return args[0] if args else "p"

    def f(self, *args, **kwargs):
        self.pause()
        raise KeyError("f")


def new(w, res, locale="en-US"):
    b = FluentBundle([locale], functions={"P": w.p, "F": w.f}, use_isolating=locale == "pl")
    b.add_resource(res)
    return b


def run(E, inp, job):
    s = inp.text("source", job["parts"])
    res = FluentResource(s)
    w = World()
    n, t = inp.int("n", 0, 20), inp.text("s", [1])
    args = [{"n": n, "s": t, "c": "c", "v": Value(w.pause, "one")}, {"n": 1, "s": "S", "c": "d", "v": Value(w.pause, "two"), "x": "ext"}]
    alone = new(w, res)
    places = patterns(alone, res)
    if not places:
        return
    if job["any"]:
        picked = [places[inp.choice("first", list(range(len(places))))], places[inp.choice("second", list(range(len(places))))]]
    else:
        picked = [places[0], places[-1]]
    locales = ["en-US", "en-US" if job["shared"] else "pl"]
    want = []
    for i in range(2):
        b = new(w, res, locales[i])
        want.append(shown(b.format_pattern(find(b, picked[i]), args[i])))
        for name, _ in want[i][1]:
            E.tag("cycle" if name == "FluentCyclicReferenceError" else "limit" if name == "ValueError" else "errors")
    bundles = [new(w, res)]
    bundles.append(bundles[0] if job["shared"] else new(w, res, "pl"))
    if job["how"] == "inside":
        when = inp.int("when", 0, job["steps"])
        inner = []
        count = [0]

        def there():
            k = count[0]
            count[0] = k + 1
            if k == when:
                w.at = None
                inner.append(shown(bundles[1].format_pattern(find(bundles[1], picked[1]), args[1])))
                w.at = there
        w.at = there
        outer = shown(bundles[0].format_pattern(find(bundles[0], picked[0]), args[0]))
        w.at = None
        E.check(outer == want[0], "a formatting is disturbed by one inside it")
        for got in inner:
            E.check(got == want[1], "a formatting inside another is disturbed by it")
            E.tag("within")
        E.observe(outer)
        return
    order = []
    running = [0]

    def pick(step, waiting):
        if step < job["steps"]:
            i = inp.choice("step%d" % step, [0, 1])
        else:
            i = waiting[0]
        order.append(i)
        return i

    we = weave.Weave(pick)

    def task(i):
        running[0] = i
        got = shown(bundles[i].format_pattern(find(bundles[i], picked[i]), args[i]))
        return got

    def switch():
        i = running[0]
        we.pause(i)
        running[0] = i
    w.at = switch
    got = we.run([task, task])
    w.at = None
    for i in range(2):
        E.check(got[i] == want[i], "a formatting is disturbed by another one under way")
    changes = len([i for i in range(1, len(order)) if order[i] != order[i - 1]])
    E.tag("alternating" if changes > 1 else "one after the other")
    E.observe(got)
