"""Symbolic bool, int and str values used in place of Python's when the real code runs."""
import codecs
import math
from decimal import Decimal
import z3
from . import core
from .core import AND, OR, NEG, ALL, BIG, MAXC, charset, compl, inter, point, setof, shift, size, Truncated


class SymBool:
    __slots__ = ("f",)
    __class__ = property(lambda self: bool)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return core.CUR.branch(self.f)

    def __and__(self, o):
        return mkb(AND([self.f, fof(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(OR([self.f, fof(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if o is True or o is False:
            return mkb(self.f if o else NEG(self.f))
        if type(o) is SymBool:
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return str(bool(self))


def mkb(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def fof(x):
    """Formula of a boolean-ish value (no fork)."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.f
    if type(x) is SymInt:
        return fof(x != 0)
    return bool(x)


def not_(x):
    if type(x) is SymBool:
        return mkb(NEG(x.f))
    return not x


# ------------------------------------------------------------------ ints
_TENS = {10 ** _k: _k for _k in range(16)}


class SymInt:
    """v + o for a variable v, or a general z3 integer expression e."""

    __slots__ = ("v", "o", "e", "vs")
    __class__ = property(lambda self: int)

    def __init__(self, v=None, o=0, e=None, vs=()):
        self.v = v
        self.o = o
        self.e = e
        self.vs = vs if v is None else (v,)

    def z(self):
        c = core.CUR
        if self.v is not None:
            x = c.z(self.v)
            return x + self.o if self.o else x
        for v in self.vs:
            if v not in c.dom:
                raise core.Stale()
        return self.e

    def _bin(self, o, op, aff=None):
        if type(o) is SymBool:
            o = int(o)
        if isinstance(o, HasSym):
            o = o._symval()
        if type(o) is bool:
            o = int(o)
        if type(o) is SymInt:
            return SymInt(e=op(self.z(), o.z()), vs=tuple(set(self.vs) | set(o.vs)))
        if type(o) is int or isinstance(o, int) and type(o) is not SymInt:
            o = int(o)
            if aff is not None and self.v is not None:
                return SymInt(self.v, self.o + aff(o))
            return SymInt(e=op(self.z(), z3.IntVal(o)), vs=self.vs)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda k: k)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda k: -k)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and type(o) is not SymInt:
            return o * concrete_int(self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return self._bin(0, lambda a, b: b - a)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return self._bin(o, lambda a, b: a / b)  # z3 int div: floor for positive divisor
        return concrete_int(self) // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return self._bin(o, lambda a, b: a % b)
        return concrete_int(self) % o

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        if type(o) is int and o in _TENS:
            if self < 10 ** 15 and self > -10 ** 15:
                from .nums import SymDec
                return SymDec(self, _TENS[o], None)
        return concrete_int(self) / o

    def __pow__(self, o):
        return concrete_int(self) ** o

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return self * (1 << o)
        return concrete_int(self) << o

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return self // (1 << o)
        return concrete_int(self) >> o

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return concrete_int(self) & o

    def __or__(self, o):
        return concrete_int(self) | o

    def __rpow__(self, o):
        return o ** concrete_int(self)

    def __rfloordiv__(self, o):
        return o // concrete_int(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % concrete_int(self)

    def __rtruediv__(self, o):
        return o / concrete_int(self)

    def _cmp(self, o, kind):
        if type(o) is SymBool:
            o = int(o)
        if isinstance(o, HasSym):
            o = o._symval()
        if type(o) is bool:
            o = int(o)
        if getattr(type(o), "symd", False):
            return NotImplemented
        if type(o) is float or isinstance(o, Decimal):
            if o != o:
                return False
            if abs(o) == float("inf"):
                return {"==": False, "<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[kind]
            if o == int(o):
                o = int(o)
            elif kind == "==":
                return False
            else:
                fl = math.floor(o)
                return self._cmp(fl, "<=" if kind in ("<", "<=") else ">")
        if type(o) is int:
            if self.v is not None:
                k = o - self.o
                if kind == "==":
                    s = point(k)
                elif kind == "<":
                    s = ((-BIG, k - 1),)
                elif kind == "<=":
                    s = ((-BIG, k),)
                elif kind == ">":
                    s = ((k + 1, BIG),)
                else:
                    s = ((k, BIG),)
                f = ("a", self.v, s)
                r = core.CUR.ev(f)
                return SymBool(f) if r is None else r
            b = z3.IntVal(o)
            vs = self.vs
        elif type(o) is SymInt:
            if self.v is not None and self.v == o.v:
                a, b = self.o, o.o
                return {"==": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[kind]
            b = o.z()
            vs = tuple(set(self.vs) | set(o.vs))
        else:
            return NotImplemented
        a = self.z()
        e = {"==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b,
             ">": lambda: a > b, ">=": lambda: a >= b}[kind]()
        return SymBool(("z", e, vs))

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not hasattr(o, "__eq__") else r

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concrete_int(self)

    __int__ = __index__

    def __float__(self):
        return float(concrete_int(self))

    def __hash__(self):
        return hash(concrete_int(self))

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        return str(concrete_int(self))

    def __format__(self, spec):
        return format(concrete_int(self), spec)

    def bit_length(self):
        return concrete_int(self).bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return concrete_int(self)

    denominator = 1


class HasSym:
    """A stand-in object carrying a symbolic number (see the int base for FluentInt)."""


def concrete_int(x):
    """Fix a symbolic int on this path; forks over the values it may take."""
    if type(x) is not SymInt:
        return int(x)
    c = core.CUR
    c.stats.concretisations += 1
    n = 0
    while True:
        if x.v is not None:
            d = shift(c.dom[x.v], x.o)
            if d[0][0] == d[-1][1]:
                return d[0][0]
            if x.v in c.cvars:
                m = c.model()
                if m is None:
                    raise core.Infeasible()
                val = m[x.v] + x.o
            else:
                val = 0 if inter(d, point(0)) else d[0][0]
        else:
            s = core.solver()
            m = c.model()
            if m is None:
                raise core.Infeasible()
            sub = [(c.z(v), z3.IntVal(m[v])) for v in x.vs]
            val = z3.simplify(z3.substitute(x.e, *sub)).as_long()
        n += 1
        if n > 64:
            raise Truncated("concretising an int")
        if x == val:
            return val


# ------------------------------------------------------------------ chars
class SC:
    """A symbolic character: variable v plus a constant offset."""

    __slots__ = ("v", "o")

    def __init__(self, v, o=0):
        self.v = v
        self.o = o


def ceq(a, b):
    """Formula: items a and b are the same character."""
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        return ("a", a.v, point(ord(b) - a.o))
    if a.v == b.v:
        return a.o == b.o
    c = core.CUR
    da = c.dom.get(a.v)
    db = c.dom.get(b.v)
    if da is None or db is None:
        raise core.Stale()
    i = inter(shift(da, a.o), shift(db, b.o))
    if not i:
        return False
    if i[0][0] == i[-1][1]:
        k = i[0][0]
        return AND([("a", a.v, point(k - a.o)), ("a", b.v, point(k - b.o))])
    return ("z", c.z(a.v) + a.o == c.z(b.v) + b.o, (a.v, b.v))


def cin(a, s):
    """Formula: item a is in interval set s."""
    if type(a) is str:
        return bool(inter(s, point(ord(a))))
    return ("a", a.v, shift(s, -a.o))


def dom_of(a):
    d = core.CUR.dom.get(a.v)
    if d is None:
        raise core.Stale()
    return shift(d, a.o)


def mk(items):
    """str from items, concrete when possible."""
    for x in items:
        if type(x) is not str:
            return SymStr(items)
    return "".join(items)


def items_of(s):
    if type(s) is SymStr:
        return s.i
    if isinstance(s, str):
        return tuple(s)
    raise TypeError("expected str, got %s" % type(s).__name__)


_pred_cache = {}


def pred_set(name):
    """All code points c with chr(c).<name>() true."""
    r = _pred_cache.get(name)
    if r is None:
        ivs = []
        start = None
        m = getattr(str, name)
        for c in range(MAXC + 1):
            if m(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                ivs.append((start, c - 1))
                start = None
        if start is not None:
            ivs.append((start, MAXC))
        r = _pred_cache[name] = tuple(ivs)
    return r


LINE_BREAKS = charset("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
ASCII_UP = ((65, 90),)
ASCII_LO = ((97, 122),)
ASCII = ((0, 127),)


def conc_char(x):
    if type(x) is str:
        return x
    c = core.CUR
    n = 0
    c.stats.concretisations += 1
    while True:
        d = dom_of(x)
        if d[0][0] == d[-1][1]:
            return chr(d[0][0])
        if x.v in c.cvars:
            m = c.model()
            if m is None:
                raise core.Infeasible()
            val = m[x.v] + x.o
        else:
            val = None
            for pref in (ASCII_LO, ASCII_UP, ((48, 57),), ((32, 126),)):
                j = inter(d, pref)
                if j:
                    val = j[0][0]
                    break
            if val is None:
                val = d[0][0]
        n += 1
        if n > 70:
            raise Truncated("concretising a character")
        if c.branch(("a", x.v, point(val - x.o))):
            return chr(val)


def concrete(s):
    """Fix a symbolic string on this path; forks over its values (bounded)."""
    if type(s) is not SymStr:
        return s
    return "".join(conc_char(x) for x in s.i)


def deep_concrete(x):
    if type(x) is SymStr:
        return concrete(x)
    if type(x) is SymInt:
        return concrete_int(x)
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymBytes:
        return x._bytes()
    if isinstance(x, HasSym):
        return x._concrete()
    if type(x) is list:
        return [deep_concrete(y) for y in x]
    if type(x) is tuple:
        return tuple(deep_concrete(y) for y in x)
    if isinstance(x, dict):
        return {deep_concrete(k): deep_concrete(v) for k, v in x.items()}
    return x


def has_sym(x, depth=0):
    t = type(x)
    if t is SymStr or t is SymInt or t is SymBool:
        return True
    if t is tuple or t is list:
        if depth < 3:
            for y in x:
                if has_sym(y, depth + 1):
                    return True
    elif isinstance(x, dict):
        if depth < 3:
            for k, y in x.items():
                if has_sym(k, depth + 1) or has_sym(y, depth + 1):
                    return True
    elif isinstance(x, HasSym):
        return True
    return False


def _idx(i):
    return i if type(i) is int or i is None else i.__index__()


class SymStr:
    __slots__ = ("i",)
    __class__ = property(lambda self: str)

    def __init__(self, items):
        self.i = tuple(items)

    # --- basics
    def __len__(self):
        return len(self.i)

    def __bool__(self):
        return len(self.i) > 0

    def __iter__(self):
        for x in self.i:
            yield x if type(x) is str else SymStr((x,))

    def __getitem__(self, k):
        if type(k) is slice:
            return mk(self.i[slice(_idx(k.start), _idx(k.stop), _idx(k.step))])
        x = self.i[_idx(k)]
        return x if type(x) is str else SymStr((x,))

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(self.i + o.i)
        if isinstance(o, str):
            return SymStr(self.i + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(tuple(o) + self.i)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.i * _idx(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return concrete(self) % deep_concrete(args)

    def __rmod__(self, o):
        from .ops import str_mod
        return str_mod(o, self)

    def _eqf(self, o):
        if type(o) is SymStr:
            b = o.i
        elif isinstance(o, str):
            b = o
        else:
            return None
        a = self.i
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = ceq(x, y)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return AND(fs)

    def __eq__(self, o):
        f = self._eqf(o)
        if f is None:
            return NotImplemented
        if f is True or f is False:
            return f
        return SymBool(f)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _lt(self, o, strict_len):
        a, b = self.i, items_of(o)
        for x, y in zip(a, b):
            if core.CUR.branch(ceq(x, y)):
                continue
            return bool(ord_item(x) < ord_item(y))
        return len(a) < len(b) if strict_len else len(a) <= len(b)

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._lt(o, True)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not self._lt(o, False)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not self._lt(o, True)

    def __hash__(self):
        from . import ops
        if ops.INTERNAL_HASH:
            return id(self) >> 4
        return hash(concrete(self))

    def __contains__(self, o):
        return self.find(o) >= 0

    def __repr__(self):
        return "<SymStr %s>" % "".join(x if type(x) is str else "?" for x in self.i)

    def __str__(self):
        return concrete(self)

    def __format__(self, spec):
        return format(concrete(self), spec)

    # --- char tests with forks
    def _at(self, p, sub):
        """self[p:p+len(sub)] == sub, forking."""
        a = self.i
        if p < 0 or p + len(sub) > len(a):
            return False
        return core.CUR.branch(AND([ceq(a[p + k], sub[k]) for k in range(len(sub))]))

    @staticmethod
    def _rng(n, start, end):
        start = 0 if start is None else _idx(start)
        end = n if end is None else _idx(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        sub = items_of(sub)
        start, end = self._rng(len(self.i), start, end)
        for p in range(start, end - len(sub) + 1):
            if self._at(p, sub):
                return p
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = items_of(sub)
        start, end = self._rng(len(self.i), start, end)
        for p in range(end - len(sub), start - 1, -1):
            if self._at(p, sub):
                return p
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = items_of(sub)
        start, end = self._rng(len(self.i), start, end)
        if not sub:
            return end - start + 1
        n = 0
        p = start
        while p <= end - len(sub):
            if self._at(p, sub):
                n += 1
                p += len(sub)
            else:
                p += 1
        return n

    def _affix(self, s, at):
        if isinstance(s, tuple):
            return any(bool(self._affix(x, at)) for x in s)
        s = items_of(s)
        n = len(s)
        if n > len(self.i):
            return False
        p = at(n)
        f = AND([ceq(self.i[p + k], s[k]) for k in range(n)])
        if f is True or f is False:
            return f
        return SymBool(f)

    def startswith(self, s, start=None, end=None):
        if start is not None or end is not None:
            t = self[slice(start, end)]
            return SymStr(items_of(t)).startswith(s)
        return self._affix(s, lambda n: 0)

    def endswith(self, s, start=None, end=None):
        if start is not None or end is not None:
            t = self[slice(start, end)]
            return SymStr(items_of(t)).endswith(s)
        return self._affix(s, lambda n: len(self.i) - n)

    def removeprefix(self, s):
        return mk(self.i[len(s):]) if self.startswith(s) else self

    def removesuffix(self, s):
        return mk(self.i[: len(self.i) - len(s)]) if len(s) and self.endswith(s) else self

    def _stripset(self, chars):
        if chars is None:
            return None, pred_set("isspace")
        it = items_of(chars)
        if all(type(x) is str for x in it):
            return None, setof(ord(x) for x in it)
        return it, None

    def _instrip(self, x, it, s):
        if it is None:
            return core.CUR.branch(cin(x, s))
        return core.CUR.branch(OR([ceq(x, y) for y in it]))

    def lstrip(self, chars=None):
        it, s = self._stripset(chars)
        a = 0
        while a < len(self.i) and self._instrip(self.i[a], it, s):
            a += 1
        return mk(self.i[a:])

    def rstrip(self, chars=None):
        it, s = self._stripset(chars)
        b = len(self.i)
        while b > 0 and self._instrip(self.i[b - 1], it, s):
            b -= 1
        return mk(self.i[:b])

    def strip(self, chars=None):
        t = self.lstrip(chars)
        return t.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            ws = pred_set("isspace")
            curw = []
            i = 0
            n = len(self.i)
            while i < n:
                x = self.i[i]
                if core.CUR.branch(cin(x, ws)):
                    if curw:
                        out.append(mk(tuple(curw)))
                        curw = []
                    i += 1
                    continue
                if not curw and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = mk(self.i[i:])
                    out.append(rest.rstrip())
                    return out
                curw.append(x)
                i += 1
            if curw:
                out.append(mk(tuple(curw)))
            return out
        sub = items_of(sep)
        if not sub:
            raise ValueError("empty separator")
        p = last = 0
        while p <= len(self.i) - len(sub):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(p, sub):
                out.append(mk(self.i[last:p]))
                p += len(sub)
                last = p
            else:
                p += 1
        out.append(mk(self.i[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return concrete(self).rsplit(None, maxsplit)
        sub = items_of(sep)
        out = []
        end = len(self.i)
        p = end - len(sub)
        while p >= 0:
            if len(out) < maxsplit and self._at(p, sub):
                out.append(mk(self.i[p + len(sub):end]))
                end = p
                p -= len(sub)
            else:
                p -= 1
        out.append(mk(self.i[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        out = []
        last = p = 0
        n = len(self.i)
        c = core.CUR
        while p < n:
            x = self.i[p]
            if c.branch(cin(x, LINE_BREAKS)):
                e = p + 1
                if e < n and c.branch(AND([cin(x, charset("\r")), cin(self.i[e], charset("\n"))])):
                    e += 1
                out.append(mk(self.i[last:e] if keepends else self.i[last:p]))
                last = p = e
            else:
                p += 1
        if last < n:
            out.append(mk(self.i[last:]))
        return out

    def partition(self, sep):
        p = self.find(sep)
        if p < 0:
            return (self, "", "")
        return (mk(self.i[:p]), sep, mk(self.i[p + len(sep):]))

    def rpartition(self, sep):
        p = self.rfind(sep)
        if p < 0:
            return ("", "", self)
        return (mk(self.i[:p]), sep, mk(self.i[p + len(sep):]))

    def replace(self, old, new, count=-1):
        old, new = items_of(old), items_of(new)
        out = []
        p = 0
        n = 0
        if not old:
            for x in self.i:
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out.extend(new)
            return mk(tuple(out))
        while p < len(self.i):
            if (count < 0 or n < count) and p + len(old) <= len(self.i) and self._at(p, old):
                out.extend(new)
                p += len(old)
                n += 1
            else:
                out.append(self.i[p])
                p += 1
        return mk(tuple(out))

    def join(self, it):
        from .ops import str_join
        return str_join(self, it)

    def format(self, *a, **k):
        from .ops import str_format
        return str_format(concrete(self), a, k)

    # --- case
    def _case(self, name):
        out = []
        c = core.CUR
        up = name == "upper"
        src = ASCII_LO if up else ASCII_UP
        off = -32 if up else 32
        for x in self.i:
            if type(x) is str:
                out.extend(getattr(x, name)())
            elif c.branch(cin(x, src)):
                out.append(SC(x.v, x.o + off))
            elif c.branch(cin(x, ASCII)):
                out.append(x)
            else:
                uncased = _uncased(name)
                if c.branch(cin(x, uncased)):
                    out.append(x)
                else:
                    out.extend(getattr(conc_char(x), name)())
        return mk(tuple(out))

    def upper(self):
        return self._case("upper")

    def lower(self):
        return self._case("lower")

    def casefold(self):
        return concrete(self).casefold()

    def capitalize(self):
        return concrete(self).capitalize()

    def title(self):
        return concrete(self).title()

    def swapcase(self):
        return concrete(self).swapcase()

    def _pred(self, name):
        if not self.i:
            return False
        f = AND([cin(x, pred_set(name)) for x in self.i])
        return mkb(f)

    def isdigit(self):
        return self._pred("isdigit")

    def isdecimal(self):
        return self._pred("isdecimal")

    def isnumeric(self):
        return self._pred("isnumeric")

    def isalpha(self):
        return self._pred("isalpha")

    def isalnum(self):
        return self._pred("isalnum")

    def isspace(self):
        return self._pred("isspace")

    def isprintable(self):
        return self._pred("isprintable")

    def isascii(self):
        return mkb(AND([cin(x, ASCII) for x in self.i]))

    def isupper(self):
        if len(self.i) == 1:
            return self._pred("isupper")
        return concrete(self).isupper()

    def islower(self):
        if len(self.i) == 1:
            return self._pred("islower")
        return concrete(self).islower()

    def istitle(self):
        return concrete(self).istitle()

    def isidentifier(self):
        if len(self.i) == 1:
            return self._pred("isidentifier")
        return concrete(self).isidentifier()

    def zfill(self, n):
        n = _idx(n)
        pad = max(0, n - len(self.i))
        if pad and len(self.i) and bool(mkb(cin(self.i[0], charset("+-")))):
            return mk((self.i[0],) + ("0",) * pad + self.i[1:])
        return mk(("0",) * pad + self.i)

    def ljust(self, n, c=" "):
        return mk(self.i + tuple(c) * max(0, _idx(n) - len(self.i)))

    def rjust(self, n, c=" "):
        return mk(tuple(c) * max(0, _idx(n) - len(self.i)) + self.i)

    def center(self, n, c=" "):
        return concrete(self).center(n, c)

    def expandtabs(self, n=8):
        return concrete(self).expandtabs(n)

    def encode(self, encoding="utf-8", errors="strict"):
        name = _codec(encoding)
        if name is None or errors not in ("strict", "replace", "ignore", "surrogatepass"):
            return concrete(self).encode(encoding, errors)
        out = []
        for k, x in enumerate(self.i):
            if type(x) is str:
                b = ord(x) > _CODECS[name] or name == "utf-8" and 0xD800 <= ord(x) <= 0xDFFF
            else:
                bad = ((0xD800, 0xDFFF),) if name == "utf-8" else ((_CODECS[name] + 1, MAXC),)
                b = core.CUR.branch(cin(x, bad))
            if not b or errors == "surrogatepass" and name == "utf-8":
                out.append(x)
            elif errors in ("strict", "surrogatepass"):
                raise UnicodeEncodeError(name, "\ufffd" * len(self.i), k, k + 1, "not encodable")
            elif errors == "replace":
                out.append("?")
        s = mk(tuple(out))
        return s.encode(name, errors) if type(s) is str else SymBytes(s, name, errors)

    def translate(self, table):
        out = []
        for x in self.i:
            if type(x) is not str:
                keys = [k for k in table if core.CUR.branch(cin(x, point(k)))] if isinstance(table, dict) else None
                if keys == []:
                    out.append(x)
                    continue
                x = conc_char(x)
            out.extend(x.translate(table))
        return mk(tuple(out))


_CODECS = {"utf-8": MAXC, "ascii": 127, "latin-1": 255}


def _codec(name):
    try:
        name = codecs.lookup(name).name
    except LookupError:
        return None
    name = {"iso8859-1": "latin-1"}.get(name, name)
    return name if name in _CODECS else None


class SymBytes:
    """A text encoded."""
    __class__ = property(lambda self: bytes)

    def __init__(self, text, codec, errors):
        self.text, self.codec, self.errors = text, codec, errors

    def _bytes(self):
        return concrete(self.text).encode(self.codec, self.errors)

    def decode(self, encoding="utf-8", errors="strict"):
        name = _codec(encoding)
        if name == self.codec and (name != "utf-8" or self.errors == "replace" or self.errors == "ignore" or self.errors == "strict"
                                   or errors == "surrogatepass"):
            return self.text
        return self._bytes().decode(encoding, errors)

    def __len__(self):
        if self.codec != "utf-8":
            return len(self.text)
        n = 0
        for x in self.text.i:
            if type(x) is str:
                n += len(x.encode("utf-8", "surrogatepass"))
                continue
            for k, top in ((1, 0x7F), (2, 0x7FF), (3, 0xFFFF), (4, MAXC)):
                if k == 4 or core.CUR.branch(cin(x, ((0, top),))):
                    n += k
                    break
        return n

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SymBytes and o.codec == self.codec:
            return self.text == o.text
        return self._bytes() == (o._bytes() if type(o) is SymBytes else o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self._bytes())

    def __iter__(self):
        return iter(self._bytes())

    def __getitem__(self, k):
        return self._bytes()[k]

    def __add__(self, o):
        return self._bytes() + (o._bytes() if type(o) is SymBytes else o)

    def __radd__(self, o):
        return o + self._bytes()

    def __contains__(self, o):
        return o in self._bytes()

    def __repr__(self):
        return repr(self._bytes())

    def __getattr__(self, name):
        return getattr(self._bytes(), name)


_uncased_cache = {}


def _uncased(name):
    r = _uncased_cache.get(name)
    if r is None:
        m = getattr(str, name)
        ivs = []
        start = None
        for cp in range(MAXC + 2):
            same = cp <= MAXC and m(chr(cp)) == chr(cp)
            if same and start is None:
                start = cp
            elif not same and start is not None:
                ivs.append((start, cp - 1))
                start = None
        r = _uncased_cache[name] = tuple(ivs)
    return r


def ord_item(x):
    if type(x) is str:
        return ord(x)
    return SymInt(x.v, x.o)


def sym_ord(s):
    if type(s) is SymStr:
        if len(s.i) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(s.i))
        return ord_item(s.i[0])
    return ord(s)


def sym_chr(n):
    if isinstance(n, HasSym):
        n = n._symval()
    if type(n) is SymInt:
        ok = (n >= 0) & (n <= MAXC) if True else None
        if not ok:
            raise ValueError("chr() arg not in range(0x110000)")
        if n.v is not None:
            return SymStr((SC(n.v, n.o),))
        c = core.CUR
        v = c.var(core.CHARS)
        c._rel(("z", c.z(v) == n.z(), tuple(n.vs) + (v,)))
        return SymStr((SC(v),))
    return chr(n)


def digit_val(x, base):
    """(formula that x is a digit in base, z3 expr of its value) for ASCII digits."""
    ivs = [(48, 48 + min(base, 10) - 1)]
    if base > 10:
        ivs += [(65, 65 + base - 11), (97, 97 + base - 11)]
    return core.norm(tuple(ivs))


def sym_int(s, base=10):
    """int(str, base) for symbolic strings."""
    if isinstance(s, HasSym):
        return s._symval()
    if type(s) is SymInt:
        return s
    if type(s) is SymBool:
        return int(bool(s))
    if type(s) is not SymStr:
        return int(s) if base == 10 and not isinstance(s, str) else int(s, base)
    t = s.strip()
    if type(t) is not SymStr:
        return int(t, base)
    it = list(t.i)
    neg = False
    c = core.CUR
    if it and c.branch(cin(it[0], charset("-"))):
        neg = True
        it.pop(0)
    elif it and c.branch(cin(it[0], charset("+"))):
        it.pop(0)
    if not it:
        raise ValueError("invalid literal for int()")
    if len(it) > 4300:
        return int(concrete(s), base)       # beyond the interpreter's limit on digits
    ds = digit_val(None, base)
    total = z3.IntVal(0)
    vs = set()
    for x in it:
        if not c.branch(cin(x, ds)):
            # other Unicode digits, underscores, prefixes: fix the string
            return int(concrete(s), base)
        if type(x) is str:
            total = total * base + int(x, base)
            continue
        z = c.z(x.v) + x.o if x.o else c.z(x.v)
        vs.add(x.v)
        val = z - 48
        if base > 10:
            val = z3.If(z >= 97, z - 87, z3.If(z >= 65, z - 55, z - 48))
        total = total * base + val
    if neg:
        total = -total
    if not vs:
        return z3.simplify(total).as_long()
    if base <= 10 and not neg and type(it[-1]) is not str and all(type(x) is str for x in it[:-1]):
        return SymInt(it[-1].v, it[-1].o - 48 + int("".join(it[:-1]) or "0", base) * base)
    return SymInt(e=total, vs=tuple(vs))


def sym_str(x):
    """str(x)"""
    if type(x) is SymStr:
        return x
    if type(x) is SymInt:
        return int_to_str(x)
    if type(x) is SymBool:
        return "True" if x else "False"
    return str(x)


def int_to_str(x):
    c = core.CUR
    key = ("str", x.v, x.o) if type(x) is SymInt and x.v is not None else \
        ("str", x.e.get_id(), x.vs) if type(x) is SymInt else None
    memo = c.memo
    if key is not None and key in memo:
        return memo[key][0]
    r = _int_to_str(x)
    if key is not None:
        memo[key] = (r, x)
    return r


def _int_to_str(x):
    c = core.CUR
    if x < 0:
        s = int_to_str(0 - x)
        return "-" + s
    n = 1
    while not (x < 10 ** n):
        n += 1
        if n > 40:
            raise Truncated("str of a large int")
    vs = [c.var(((48, 57),)) for _ in range(n)]
    total = z3.IntVal(0)
    for v in vs:
        total = total * 10 + (c.z(v) - 48)
    if type(x) is not SymInt:
        return str(x)
    c._rel(("z", total == x.z(), tuple(x.vs) + tuple(vs)))
    return SymStr(tuple(SC(v) for v in vs))
