"""re for symbolic strings: a backtracking matcher over the parsed pattern.

Character tests become solver branches.  Patterns using constructs the matcher does not
cover fix the string first.
"""
import re as _re
import re._constants as C
import re._parser as P
from re import *  # noqa: F401,F403
from re import error, escape, RegexFlag  # noqa: F401

from . import core
from .core import compl, union, norm, point
from .vals import SymStr, cin, ceq, concrete, items_of, mk

A = ASCII = _re.A
I = IGNORECASE = _re.I
M = MULTILINE = _re.M
S = DOTALL = _re.S
U = UNICODE = _re.U
X = VERBOSE = _re.X
Match = _re.Match


class Unsupported(Exception):
    pass


_cat = {}


def cat_set(av, ascii_):
    k = (av, ascii_)
    r = _cat.get(k)
    if r is None:
        pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
               C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[av]
        rx = _re.compile(pat, _re.A if ascii_ else 0)
        ivs = []
        start = None
        for cp in range(core.MAXC + 2):
            ok = cp <= core.MAXC and rx.match(chr(cp)) is not None
            if ok and start is None:
                start = cp
            elif not ok and start is not None:
                ivs.append((start, cp - 1))
                start = None
        r = _cat[k] = tuple(ivs)
    return r


def in_set(items, fl):
    neg = False
    s = ()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s = union(s, point(av))
        elif op is C.RANGE:
            s = union(s, ((av[0], av[1]),))
        elif op is C.CATEGORY:
            s = union(s, cat_set(av, bool(fl & _re.A)))
        else:
            raise Unsupported()
    s = norm(s)
    return compl(s) if neg else s


NL = point(10)


class Prog:
    """Compiled form: a list of nodes, single-char nodes as interval sets."""

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.tree = P.parse(pattern, flags)
        self.flags = self.tree.state.flags
        if self.flags & _re.I:
            raise Unsupported()
        self.ngroups = self.tree.state.groups
        self.groupdict = dict(self.tree.state.groupdict)
        self.nodes = self.conv(self.tree, self.flags)

    def conv(self, seq, fl):
        out = []
        for op, av in seq:
            if op is C.LITERAL:
                out.append(("c", point(av)))
            elif op is C.NOT_LITERAL:
                out.append(("c", compl(point(av))))
            elif op is C.ANY:
                out.append(("c", core.ALL if fl & _re.S else compl(NL)))
            elif op is C.IN:
                out.append(("c", in_set(av, fl)))
            elif op is C.BRANCH:
                out.append(("|", [self.conv(b, fl) for b in av[1]]))
            elif op is C.SUBPATTERN:
                g, add, rem, p = av
                nf = (fl | add) & ~rem
                if nf & _re.I:
                    raise Unsupported()
                out.append(("g", g, self.conv(p, nf)))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                out.append(("r", op is C.MAX_REPEAT, lo, None if hi is C.MAXREPEAT else hi, self.conv(p, fl)))
            elif op is getattr(C, "POSSESSIVE_REPEAT", None):
                lo, hi, p = av
                out.append(("A", [("r", True, lo, None if hi is C.MAXREPEAT else hi, self.conv(p, fl))]))
            elif op is getattr(C, "ATOMIC_GROUP", None):
                out.append(("A", self.conv(av, fl)))
            elif op is C.AT:
                out.append(("@", av, fl))
            elif op in (C.ASSERT, C.ASSERT_NOT):
                d, p = av
                lo, hi = p.getwidth()
                if d < 0 and lo != hi:
                    raise Unsupported()
                out.append(("?", op is C.ASSERT, d, self.conv(p, fl), lo))
            elif op is C.GROUPREF:
                out.append(("b", av))
            else:
                raise Unsupported()
        return out

    # matching, continuation passing; groups is an immutable tuple of spans
    def m(self, nodes, i, s, p, gr, k):
        if i == len(nodes):
            return k(p, gr)
        n = nodes[i]
        t = n[0]
        nxt = lambda q, g: self.m(nodes, i + 1, s, q, g, k)
        if t == "c":
            if p < len(s) and core.CUR.branch(cin(s[p], n[1])):
                return nxt(p + 1, gr)
            return None
        if t == "|":
            for b in n[1]:
                r = self.m(b, 0, s, p, gr, nxt)
                if r is not None:
                    return r
            return None
        if t == "g":
            g = n[1]

            def done(q, g2):
                if g is not None:
                    g2 = dict(g2)
                    g2[g] = (p, q)
                    g2[0] = g
                return nxt(q, g2)
            return self.m(n[2], 0, s, p, gr, done)
        if t == "r":
            return self.rep(n, 0, s, p, gr, nxt)
        if t == "A":
            r = self.m(n[1], 0, s, p, gr, lambda q, g: (q, g))
            if r is None:
                return None
            return nxt(*r)
        if t == "@":
            return nxt(p, gr) if self.at(n[1], n[2], s, p) else None
        if t == "?":
            q = p - n[4] if n[2] < 0 else p
            r = None
            if q >= 0:
                r = self.m(n[3], 0, s, q, gr, lambda q2, g: (q2, g))
            if (r is not None) != n[1]:
                return None
            return nxt(p, r[1] if r is not None else gr)
        if t == "b":
            sp = gr.get(n[1])
            if sp is None:
                return None
            a, b = sp
            if p + b - a > len(s):
                return None
            for x in range(b - a):
                if not core.CUR.branch(ceq(s[a + x], s[p + x])):
                    return None
            return nxt(p + b - a, gr)
        raise Unsupported()

    def rep(self, n, cnt, s, p, gr, nxt):
        _, greedy, lo, hi, body = n
        core.CUR.tick()

        def more():
            if hi is not None and cnt >= hi:
                return None

            def after(q, g):
                if q == p and cnt >= lo:
                    return None
                return self.rep(n, cnt + 1, s, q, g, nxt)
            return self.m(body, 0, s, p, gr, after)

        if cnt < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else nxt(p, gr)
        r = nxt(p, gr)
        return r if r is not None else more()

    def at(self, av, fl, s, p):
        c = core.CUR
        if av is C.AT_BEGINNING:
            if p == 0:
                return True
            return bool(fl & _re.M) and c.branch(cin(s[p - 1], NL))
        if av is C.AT_BEGINNING_STRING:
            return p == 0
        if av is C.AT_END:
            if p == len(s):
                return True
            if fl & _re.M:
                return c.branch(cin(s[p], NL))
            return p == len(s) - 1 and c.branch(cin(s[p], NL))
        if av is C.AT_END_STRING:
            return p == len(s)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = cat_set(C.CATEGORY_WORD, bool(fl & _re.A))
            a = p > 0 and c.branch(cin(s[p - 1], w))
            b = p < len(s) and c.branch(cin(s[p], w))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported()


class SMatch:
    def __init__(self, prog, s, start, end, gr, pos, endpos):
        self.re = prog
        self.string = mk(s)
        self._s = s
        self._g = dict(gr)
        self.lastindex = self._g.pop(0, None)
        self._g[0] = (start, end)
        self.pos, self.endpos = pos, endpos
        inv = {v: k for k, v in prog.prog.groupdict.items()}
        self.lastgroup = inv.get(self.lastindex)

    def _n(self, g):
        if isinstance(g, str):
            return self.re.prog.groupdict[concrete(g)]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        sp = self._g.get(self._n(g))
        return default if sp is None else mk(self._s[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.prog.groupdict.items()}

    def span(self, g=0):
        return self._g.get(self._n(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def __bool__(self):
        return True

    def expand(self, t):
        return expand(t, self)


def expand(t, m):
    if type(t) is SymStr:
        t = concrete(t)
    if "\\" not in t:
        return t
    parts = P.parse_template(t, _re.compile(m.re.pattern, m.re.flags & ~_re.U if isinstance(m.re.pattern, bytes) else m.re.flags))
    out = []
    for x in parts:
        if isinstance(x, int):
            out.extend(items_of(m._one(x, "")))
        else:
            out.extend(x)
    return mk(tuple(out))


class SPattern:
    def __init__(self, pattern, flags=0):
        self.native = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = self.native.groupindex
        try:
            self.prog = Prog(pattern, flags)
        except Unsupported:
            self.prog = None

    def _s(self, s):
        """None when the native engine can (or must) be used."""
        if type(s) is SymStr and self.prog is not None:
            return s.i
        return None

    def _run(self, s, p, endpos, full):
        sub = s[:endpos] if endpos is not None and endpos < len(s) else s
        end = (lambda q, g: (q, g) if q == len(sub) else None) if full else (lambda q, g: (q, g))
        r = self.prog.m(self.prog.nodes, 0, sub, p, {}, end)
        if r is None:
            return None
        return SMatch(self, s, p, r[0], r[1], p, len(sub))

    def match(self, string, pos=0, endpos=None):
        s = self._s(string)
        if s is None:
            return self._nat("match", string, pos, endpos)
        return self._run(s, pos, endpos, False)

    def fullmatch(self, string, pos=0, endpos=None):
        s = self._s(string)
        if s is None:
            return self._nat("fullmatch", string, pos, endpos)
        return self._run(s, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        s = self._s(string)
        if s is None:
            return self._nat("search", string, pos, endpos)
        for p in range(pos, (len(s) if endpos is None else min(endpos, len(s))) + 1):
            m = self._run(s, p, endpos, False)
            if m is not None:
                return m
        return None

    def _nat(self, name, string, pos, endpos):
        string = concrete(string)
        a = (string, pos) if endpos is None else (string, pos, endpos)
        return getattr(self.native, name)(*a)

    def _iter(self, s, pos=0):
        p = pos
        last_empty_ok = -1
        while p <= len(s):
            m = self._run(s, p, None, False)
            if m is None or (m.end() == p and p == last_empty_ok):
                p += 1
                continue
            yield m
            if m.end() == m.start():
                last_empty_ok = -1
                p = m.end() + 1
            else:
                p = m.end()

    def finditer(self, string, pos=0, endpos=None):
        s = self._s(string)
        if s is None or endpos is not None:
            return self.native.finditer(concrete(string), pos)
        return self._iter(s, pos)

    def findall(self, string, pos=0, endpos=None):
        s = self._s(string)
        if s is None or endpos is not None:
            return self.native.findall(concrete(string), pos)
        out = []
        for m in self._iter(s, pos):
            out.append(m.group(0) if self.groups == 0 else m._one(1, "") if self.groups == 1 else m.groups(""))
        return out

    def subn(self, repl, string, count=0):
        s = self._s(string)
        if s is None:
            if callable(repl) or type(repl) is not SymStr:
                string = concrete(string)
                if not callable(repl):
                    return self.native.subn(repl, string, count)
                # callbacks may return symbolic text
                out = []
                last = n = 0
                for m in self.native.finditer(string):
                    if count and n >= count:
                        break
                    out.extend(string[last:m.start()])
                    out.extend(items_of(repl(m)))
                    last = m.end()
                    n += 1
                out.extend(string[last:])
                return mk(tuple(out)), n
            s = tuple(string)
            if self.prog is None:
                return self.native.subn(concrete(repl), string, count)
        out = []
        last = n = 0
        for m in self._iter(s):
            if count and n >= count:
                break
            out.extend(s[last:m.start()])
            out.extend(items_of(repl(m) if callable(repl) else expand(repl, m)))
            last = m.end()
            n += 1
        out.extend(s[last:])
        return mk(tuple(out)), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        s = self._s(string)
        if s is None:
            return self.native.split(concrete(string), maxsplit)
        out = []
        last = n = 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(s[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(mk(s[last:]))
        return out


Pattern = SPattern
_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~_re.U
    if type(pattern) is SymStr:
        pattern = concrete(pattern)
    k = (pattern, int(flags))
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = SPattern(pattern, flags)
    return r


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


