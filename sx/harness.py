"""The interface a property's harness sees: E (assertions) and inp (inputs), symbolic or native."""
from . import core
from .core import CHARS
from .nat import NatE, NatInputs, SkipRun, Violation  # noqa: F401

NAMED = {}


def domain(spec):
    """A character domain: None (all code points) or a string of characters, or interval pairs."""
    if spec is None:
        return CHARS
    if isinstance(spec, str):
        r = NAMED.get(spec)
        if r is None:
            r = NAMED[spec] = core.charset(spec)
        return r
    return core.norm(tuple((a, b) for a, b in spec))


class SymInputs:
    def __init__(self, ctx):
        self.c = ctx
        self.rec = []

    def text(self, name, parts):
        """str from parts: a str is literal, an int n is n free characters, [n, domain] restricts them."""
        from .vals import SC, mk
        items = []
        for p in parts:
            if isinstance(p, str):
                items.extend(p)
            else:
                n, dom = (p, None) if isinstance(p, int) else p
                d = domain(dom)
                for _ in range(n):
                    v = self.c.var(d)
                    self.c.init_volume *= core.size(d)
                    items.append(SC(v))
        self.rec.append((name, "str", items))
        return mk(tuple(items))

    def str(self, name, n, dom=None):
        return self.text(name, [[n, dom]])

    def int(self, name, lo, hi):
        from .vals import SymInt
        d = ((lo, hi),)
        v = self.c.var(d)
        self.c.init_volume *= core.size(d)
        self.rec.append((name, "int", v))
        return SymInt(v)

    def bool(self, name):
        from .vals import mkb
        v = self.c.var(((0, 1),))
        self.c.init_volume *= 2
        self.rec.append((name, "bool", v))
        return mkb(("a", v, ((1, 1),)))

    def choice(self, name, seq):
        seq = list(seq)
        n = len(seq)
        d = ((0, n - 1),)
        v = self.c.var(d)
        self.c.init_volume *= n
        self.rec.append((name, "choice", v))
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.c.branch(("a", v, ((lo, mid),))):
                hi = mid
            else:
                lo = mid + 1
        return seq[lo]

    def vars(self):
        for _, kind, p in self.rec:
            if kind == "str":
                for x in p:
                    if not isinstance(x, str):
                        yield x.v
            else:
                yield p

    def values(self, m):
        out = {}
        for name, kind, p in self.rec:
            if kind == "str":
                out[name] = "".join(x if isinstance(x, str) else chr(m[x.v] + x.o) for x in p)
            elif kind == "bool":
                out[name] = bool(m[p])
            else:
                out[name] = m[p]
        return out


class SymE:
    sym = True

    def __init__(self, ctx):
        self.c = ctx
        self.obs = []
        self.region = None

    def check(self, cond, msg=""):
        from .vals import fof
        self.c.check(fof(cond), msg)

    def assume(self, cond):
        from .vals import fof
        self.c.add(fof(cond))

    def observe(self, x):
        self.obs.append(x)

    def tag(self, name):
        self.c.tags.add(name)

    def known(self, name):
        self.region = name

    def fail(self, msg):
        self.c.check(False, msg)

    def files(self, files):
        from . import vfs
        vfs.reset()
        for name, text in files.items():
            vfs.FILES[vfs.norm(vfs.ROOT + "/" + name)] = text
        vfs.FILES.setdefault(vfs.ROOT + "/.keep", "")
        return vfs.ROOT

    def printed(self, f, *a):
        from . import vfs, ops
        import sys
        vfs.OUT = []
        kept = sys.stdout
        try:
            sys.stdout = vfs.Out()
            f(*a)
            out = vfs.OUT
        finally:
            sys.stdout = kept
            vfs.OUT = None
        if len(out) == 2 and type(out[0]).__name__ == "JText":
            return out[0]
        return ops.call("".join, out)


def under(x, m, depth=0):
    """The concrete value of an observed result under model m."""
    from .vals import SymStr, SymInt, SymBool, HasSym
    t = type(x)
    if t is SymStr:
        return "".join(y if isinstance(y, str) else chr(m[y.v] + y.o) for y in x.i)
    if t is SymInt:
        if x.v is not None:
            return m[x.v] + x.o
        return None
    if t is SymBool:
        return None
    if isinstance(x, HasSym):
        return None
    if t is list:
        return [under(y, m, depth + 1) for y in x]
    if t is tuple:
        return tuple(under(y, m, depth + 1) for y in x)
    if isinstance(x, dict):
        return {under(k, m): under(v, m) for k, v in dict.items(x)}
    return x


def agree(a, b):
    """Observed values agree (None on the symbolic side means: not evaluated)."""
    if a is None:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(agree(x, y) and agree(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool)) or isinstance(b, (str, int, float, bool)):
        return a == b
    return True
