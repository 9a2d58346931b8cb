"""Path conditions, finite interval domains, the z3 back end and path exploration.

Every symbolic input is an integer variable (a code point or a bounded int) with a
finite domain.  A path condition is kept in two parts: a domain (set of integer
intervals) per variable, and a list of relational constraints.  Branches whose outcome
the domains alone decide are decided by interval arithmetic (exactly, because those
variables occur in no relational constraint); everything else goes to z3.  At the end
of every path z3 is asked for PC (must be sat: reachability) and PC & not P.
"""
import time
import z3

MAXC = 0x10FFFF
BIG = 1 << 60
ALL = ((-BIG, BIG),)
CHARS = ((0, MAXC),)


class Stop(BaseException):
    """Base of engine control flow; never an Exception, so code under test cannot catch it."""


class Infeasible(Stop):
    pass


class Truncated(Stop):
    def __init__(self, why):
        self.why = why


class Stale(Stop):
    pass


class StepLimit(Stop):
    pass


class EngineError(Stop):
    pass


# ---------------------------------------------------------------- interval sets
_im = {}
_cm = {}
_um = {}
_sm = {}


def inter(a, b):
    if a is b or a == b:
        return a
    k = (a, b)
    r = _im.get(k)
    if r is None:
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        r = _im[k] = tuple(out)
    return r


def compl(a):
    r = _cm.get(a)
    if r is None:
        out = []
        lo = -BIG
        for x, y in a:
            if lo <= x - 1:
                out.append((lo, x - 1))
            lo = y + 1
        if lo <= BIG:
            out.append((lo, BIG))
        r = _cm[a] = tuple(out)
        _cm.setdefault(r, a)
    return r


def union(a, b):
    k = (a, b)
    r = _um.get(k)
    if r is None:
        r = _um[k] = norm(a + b)
    return r


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def shift(a, k):
    if k == 0:
        return a
    key = (a, k)
    r = _sm.get(key)
    if r is None:
        r = _sm[key] = tuple(
            (lo if lo == -BIG else lo + k, hi if hi == BIG else hi + k) for lo, hi in a
        )
    return r


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def point(n):
    return ((n, n),)


def setof(ns):
    return norm(tuple((n, n) for n in ns))


def charset(s):
    return setof(ord(c) for c in s)


# ---------------------------------------------------------------- formulas
# True | False | ('a', var, set) | ('&', fs) | ('|', fs) | ('z', z3expr, vars)


def AND(fs):
    atoms = {}
    rest = []
    stack = list(fs)
    stack.reverse()
    while stack:
        f = stack.pop()
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == "a":
            v = f[1]
            s = inter(atoms[v], f[2]) if v in atoms else f[2]
            if not s:
                return False
            atoms[v] = s
        elif f[0] == "&":
            stack.extend(f[1])
        else:
            rest.append(f)
    out = [("a", v, s) for v, s in atoms.items()] + rest
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("&", out)


def OR(fs):
    atoms = {}
    rest = []
    stack = list(fs)
    stack.reverse()
    while stack:
        f = stack.pop()
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == "a":
            v = f[1]
            atoms[v] = union(atoms[v], f[2]) if v in atoms else f[2]
            if atoms[v] == ALL:
                return True
        elif f[0] == "|":
            stack.extend(f[1])
        else:
            rest.append(f)
    out = [("a", v, s) for v, s in atoms.items()] + rest
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("|", out)


def NEG(f):
    if f is True:
        return False
    if f is False:
        return True
    t = f[0]
    if t == "a":
        return ("a", f[1], compl(f[2]))
    if t == "&":
        return OR([NEG(x) for x in f[1]])
    if t == "|":
        return AND([NEG(x) for x in f[1]])
    return ("z", z3.Not(f[1]), f[2])


def fvars(f, out):
    if f is True or f is False:
        return
    t = f[0]
    if t == "a":
        out.append(f[1])
    elif t == "z":
        out.extend(f[2])
    else:
        for x in f[1]:
            fvars(x, out)


# ---------------------------------------------------------------- z3
_zv = {}
_za = {}


def zvar(local):
    r = _zv.get(local)
    if r is None:
        r = _zv[local] = z3.Int("x%d" % local)
    return r


def zset(local, s):
    k = (local, s)
    r = _za.get(k)
    if r is None:
        x = zvar(local)
        parts = []
        for lo, hi in s:
            if lo == hi:
                parts.append(x == lo)
            else:
                c = []
                if lo > -BIG:
                    c.append(x >= lo)
                if hi < BIG:
                    c.append(x <= hi)
                parts.append(z3.And(*c) if len(c) != 1 else c[0])
        r = z3.Or(*parts) if len(parts) != 1 else parts[0]
        if not s:
            r = z3.BoolVal(False)
        _za[k] = r
        if len(_za) > 200000:
            _za.clear()
    return r


class Stats:
    FIELDS = (
        "paths", "infeasible", "truncated", "branches", "forks", "presolved",
        "pc_sat", "engine_errors", "divergences", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "vcs", "vcs_simplified",
        "vcs_z3", "steps", "native_runs", "concretisations", "skipped",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.z3_time = 0.0
        self.volume = 0
        self.exact_volume = True
        self.functions = set()
        self.trunc_why = {}
        self.tags = {}
        self.samples = []
        self.init_volume = None

    def add(self, o):
        if len(self.samples) < 2:
            self.samples.extend(o.samples[:1])
        if o.init_volume is not None:
            self.init_volume = o.init_volume if self.init_volume in (None, o.init_volume) else -1
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.z3_time += o.z3_time
        self.volume += o.volume
        self.exact_volume = self.exact_volume and o.exact_volume
        self.functions |= o.functions
        for k, v in o.trunc_why.items():
            self.trunc_why[k] = self.trunc_why.get(k, 0) + v
        for k, v in o.tags.items():
            self.tags[k] = self.tags.get(k, 0) + v


_solver = None


def solver():
    global _solver
    if _solver is None:
        _solver = z3.SimpleSolver()
        _solver.set("timeout", 20000)
    return _solver


from .nat import Violation  # noqa: E402,F401


class Failed(Stop):
    """A symbolic path on which the property is violated for some input."""

    def __init__(self, msg):
        self.msg = msg


class Ctx:
    """State of one path."""

    epoch = 0

    def __init__(self, prefix, stats, max_steps=400000):
        Ctx.epoch += 1
        self.base = Ctx.epoch * 4096
        self.nvars = 0
        self.dom = {}
        self.inputs = []  # (name, kind, payload)
        self.cplx = []
        self.cvars = set()
        self.memo = {}
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.stats = stats
        self.steps = 0
        self.max_steps = max_steps
        self.tags = set()
        self.init_volume = 1
        self.vcs = []
        self.cex = None

    # -- variables
    def var(self, dom):
        i = self.base + self.nvars
        self.nvars += 1
        self.dom[i] = dom
        return i

    def z(self, v):
        if v not in self.dom:
            raise Stale()
        return zvar(v - self.base)

    # -- evaluation under domains
    def ev(self, f):
        if f is True or f is False:
            return f
        t = f[0]
        if t == "a":
            d = self.dom.get(f[1])
            if d is None:
                raise Stale()
            i = inter(d, f[2])
            if not i:
                return False
            if i == d:
                return True
            return None
        if t == "&":
            res = True
            for x in f[1]:
                r = self.ev(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if t == "|":
            res = False
            for x in f[1]:
                r = self.ev(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        return None

    def zf(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        t = f[0]
        if t == "a":
            if f[1] not in self.dom:
                raise Stale()
            return zset(f[1] - self.base, f[2])
        if t == "&":
            return z3.And(*[self.zf(x) for x in f[1]])
        if t == "|":
            return z3.Or(*[self.zf(x) for x in f[1]])
        return f[1]

    def _check(self, fs, only=None, want_model=False):
        """z3 verdict on domains & relational constraints & fs."""
        s = solver()
        s.push()
        t0 = time.perf_counter()
        try:
            vs = self.dom if only is None else only
            for v in vs:
                s.add(zset(v - self.base, self.dom[v]))
            for c in self.cplx:
                s.add(self.zf(c))
            for f in fs:
                s.add(self.zf(f))
            r = s.check()
            m = s.model() if (want_model and r == z3.sat) else None
        finally:
            s.pop()
            st = self.stats
            st.z3_queries += 1
            st.z3_time += time.perf_counter() - t0
        if r == z3.sat:
            st.z3_sat += 1
        elif r == z3.unsat:
            st.z3_unsat += 1
        else:
            st.z3_unknown += 1
            raise Truncated("z3 unknown")
        return (r == z3.sat), m

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        t = f[0]
        if t == "a":
            i = inter(self.dom[f[1]], f[2])
            if not i:
                raise Infeasible()
            self.dom[f[1]] = i
        elif t == "&":
            for x in f[1]:
                self.assume(x)
        elif t == "|":
            live = [x for x in f[1] if self.ev(x) is not False]
            if not live:
                raise Infeasible()
            if len(live) == 1:
                self.assume(live[0])
            else:
                self._rel(OR(live))
        else:
            self._rel(f)

    def _rel(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if f[0] == "a":
            return self.assume(f)
        self.cplx.append(f)
        vs = []
        fvars(f, vs)
        self.cvars.update(vs)

    def add(self, f):
        """Add a constraint that may cut the path (harness assumption)."""
        self.assume(f)
        if self.cplx:
            ok, _ = self._check([])
            if not ok:
                raise Infeasible()

    def branch(self, f):
        r = self.ev(f)
        st = self.stats
        st.branches += 1
        if r is not None:
            st.presolved += 1
            return r
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assume(f if d else NEG(f))
            return d
        nf = NEG(f)
        vs = []
        fvars(f, vs)
        exact = len(set(vs)) == len(vs) and f[0] != "z" and not any(
            v in self.cvars for v in vs
        ) and not _haszz(f)
        both = True
        d = True
        if not exact:
            # A relational or entangled condition: z3 decides both sides.
            only = None
            t, _ = self._check([f], only)
            if not t:
                d, both = False, False
            else:
                e, _ = self._check([nf], only)
                if not e:
                    both = False
        else:
            st.presolved += 1
        if both:
            st.forks += 1
            self.pending.append(self.trace + [False])
        self.pos += 1
        self.trace.append(d)
        self.assume(f if d else nf)
        return d

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()

    # -- models
    def model(self, extra=()):
        ok, m = self._check(list(extra), want_model=True)
        if not ok:
            return None
        out = {}
        for v in self.dom:
            val = m.eval(zvar(v - self.base), model_completion=True).as_long()
            out[v] = val
        return out

    def check(self, f, msg):
        """Assert f; undecided obligations are put to z3 together when the path ends."""
        st = self.stats
        st.vcs += 1
        if f is True:
            st.vcs_simplified += 1
            return
        r = self.ev(f)
        if r is True:
            # decided by the interval domains; z3 confirms it with the rest at the end
            st.vcs_simplified += 1
            if len(self.vcs) < 64:
                self.vcs.append((f, msg))
            return
        self.vcs.append((f, msg))
        if r is False:
            self.flush()
            raise EngineError("unsatisfiable path reached an assertion")

    def flush(self):
        """Discharge the path's obligations: z3 on PC & (not P1 or not P2 ...)."""
        vcs, self.vcs = self.vcs, []
        if not vcs:
            return
        self.stats.vcs_z3 += len(vcs)
        m = self.model([OR([NEG(f) for f, _ in vcs])])
        if m is None:
            return
        for f, msg in vcs:
            m1 = self.model([NEG(f)])
            if m1 is not None:
                self.cex = m1
                raise Failed(msg)
        raise EngineError("inconsistent z3 answers")


def _haszz(f):
    if f is True or f is False:
        return False
    if f[0] == "z":
        return True
    if f[0] in "&|":
        return any(_haszz(x) for x in f[1])
    return False


CUR = None


def cur():
    return CUR


def set_cur(c):
    global CUR
    CUR = c
