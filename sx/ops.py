"""Runtime support for rewritten source: calls into C code, containers, f-strings, and/or."""
import builtins
import dataclasses
import functools as _functools
import json as _json
import string as _string
import sys
import types
import typing
from types import FunctionType, MethodType, BuiltinFunctionType

from . import core
from .core import AND, OR, NEG, Truncated, setof, point
from .vals import (SymBool, SymInt, SymStr, HasSym, SC, mk, mkb, fof, not_, items_of, concrete,
                   concrete_int, deep_concrete, has_sym, sym_chr, sym_int, sym_ord, sym_str,
                   ceq, cin, conc_char)

INTERNAL_HASH = False
SYM = (SymStr, SymInt, SymBool)
PKG = ("sxfluent", "sxspec", "sxprops", "sxtools", "sx")


def enter(name):
    c = core.CUR
    if c is not None:
        c.stats.functions.add(name)
        c.tick()


def tick():
    c = core.CUR
    if c is not None:
        c.tick()


# ------------------------------------------------------------------ and / or
def and_(left, right, pure):
    if type(left) is not SymBool:
        return right() if left else left
    if pure:
        try:
            r = right()
        except Exception:
            return right() if left else left
        if r is True or r is False or type(r) is SymBool:
            return mkb(AND([left.f, fof(r)]))
        return r if left else left
    return right() if left else False


def or_(left, right, pure):
    if type(left) is not SymBool:
        return left if left else right()
    if pure:
        try:
            r = right()
        except Exception:
            return left if left else right()
        if r is True or r is False or type(r) is SymBool:
            return mkb(OR([left.f, fof(r)]))
        return left if left else r
    return True if left else right()


# ------------------------------------------------------------------ containers
def _symkey(k):
    t = type(k)
    if t is SymStr or t is SymInt or t is SymBool:
        return True
    if t is tuple:
        for x in k:
            if _symkey(x):
                return True
        return False
    return isinstance(k, HasSym) and k._is_sym()


def _keyeq(a, b):
    if type(a) is tuple or type(b) is tuple:
        if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not _keyeq(x, y):
                return False
        return True
    if a is b:
        return True
    r = a == b
    return bool(r)


class _ih:
    def __enter__(self):
        global INTERNAL_HASH
        self.old = INTERNAL_HASH
        INTERNAL_HASH = True

    def __exit__(self, *a):
        global INTERNAL_HASH
        INTERNAL_HASH = self.old


_IH = _ih


class SymDict(dict):
    """dict whose keys may be symbolic: lookups compare keys, forking the path."""

    __slots__ = ("_s",)

    def _find(self, k):
        """The stored key equal to k, as a 1-tuple, or None."""
        symk = _symkey(k)
        if not symk and not getattr(self, "_s", False):
            return (k,) if dict.__contains__(self, k) else None
        if not symk:
            # exact concrete key first (equal concrete keys are unique)
            with _IH():
                if dict.__contains__(self, k):
                    return (k,)
        for q in dict.__iter__(self):
            if not symk and not _symkey(q):
                continue
            if _keyeq(q, k):
                return (q,)
        return None

    def __getitem__(self, k):
        q = self._find(k)
        if q is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        with _IH():
            return dict.__getitem__(self, q[0])

    def __setitem__(self, k, v):
        q = self._find(k)
        if q is None:
            if _symkey(k):
                self._s = True
            q = (k,)
        with _IH():
            dict.__setitem__(self, q[0], v)

    def __delitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        with _IH():
            dict.__delitem__(self, q[0])

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        q = self._find(k)
        if q is None:
            return d
        with _IH():
            return dict.__getitem__(self, q[0])

    def setdefault(self, k, d=None):
        q = self._find(k)
        if q is None:
            self[k] = d
            return d
        with _IH():
            return dict.__getitem__(self, q[0])

    _NO = object()

    def pop(self, k, d=_NO):
        q = self._find(k)
        if q is None:
            if d is SymDict._NO:
                raise KeyError(k)
            return d
        with _IH():
            return dict.pop(self, q[0])

    def update(self, *a, **kw):
        for src in a:
            if isinstance(src, dict):
                for k in list(dict.__iter__(src)):
                    with _IH():
                        v = dict.__getitem__(src, k)
                    self[k] = v
            elif hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        d = SymDict()
        d.update(self)
        return d

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict()
        d.update(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in (o if isinstance(o, SymDict) else mkdict_from(o)):
                return False
            if not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = SymDict()
        for k in ks:
            d[k] = v
        return d


def mkdict_from(*a, **kw):
    d = SymDict()
    d.update(*a, **kw)
    return d


def mkdict(pairs):
    """Dict display; (None-marker, mapping) pairs are ** unpackings."""
    d = SymDict()
    for k, v in pairs:
        if k is _UNPACK:
            d.update(v)
        else:
            d[k] = v
    return d


class _U:
    pass


_UNPACK = _U()


class SymSet(set):
    """set whose members may be symbolic."""

    def __init__(self, it=()):
        set.__init__(self)
        self._s = False
        for x in it:
            self.add(x)

    def _find(self, k):
        symk = _symkey(k)
        if not symk and not self._s:
            return (k,) if set.__contains__(self, k) else None
        if not symk:
            with _IH():
                if set.__contains__(self, k):
                    return (k,)
        for q in set.__iter__(self):
            if not symk and not _symkey(q):
                continue
            if _keyeq(q, k):
                return (q,)
        return None

    def __contains__(self, k):
        if type(k) is SymStr and not self._s:
            # one formula instead of one fork per member
            try:
                return bool(mkb(OR([fof(k == q) for q in sorted(set.__iter__(self))])))
            except TypeError:
                pass
        return self._find(k) is not None

    def add(self, k):
        if self._find(k) is None:
            if _symkey(k):
                self._s = True
            with _IH():
                set.add(self, k)

    def discard(self, k):
        q = self._find(k)
        if q is not None:
            with _IH():
                set.discard(self, q[0])

    def remove(self, k):
        if self._find(k) is None:
            raise KeyError(k)
        self.discard(k)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r

    def union(self, *os):
        r = SymSet(self)
        r.update(*os)
        return r

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet(x for x in self if x in o)

    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def __sub__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet(x for x in self if x not in o)

    def __rsub__(self, o):
        return SymSet(x for x in o if x not in self)

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def difference_update(self, *os):
        for o in os:
            self.__isub__(o)

    def __xor__(self, o):
        return (self - o) | SymSet(x for x in o if x not in self)

    def symmetric_difference(self, o):
        return self ^ o

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


class SymFrozen(SymSet):
    __class__ = property(lambda self: frozenset)

    def __hash__(self):
        return 7


def mkset(it=()):
    return SymSet(it)


def contains(c, x):
    """x in c"""
    t = type(c)
    if t is SymDict or t is SymSet:
        return c.__contains__(x)
    tx = type(x)
    if tx is SymStr:
        if t is str:
            if len(x.i) == 1:
                f = cin(x.i[0], setof(ord(ch) for ch in c))
                return _pre(f)
            if not x.i:
                return True
            fs = [fof(x == c[p:p + len(x.i)]) for p in range(len(c) - len(x.i) + 1)]
            return _pre(OR(fs))
        if t is tuple or t is list or t is set or t is frozenset:
            fs = []
            for q in c:
                r = x == q
                if r is NotImplemented:
                    r = False
                fs.append(fof(r))
            return _pre(OR(fs))
        if isinstance(c, dict):
            for q in c:
                if x == q:
                    return True
            return False
    elif tx is SymInt or (isinstance(x, HasSym) and x._is_sym()):
        if t is range:
            return _pre(AND([fof(x >= c.start), fof(x < c.stop)])) if c.step == 1 else concrete_int(x) in c
        if t is tuple or t is list or t is set or t is frozenset:
            return _pre(OR([fof(x == q) for q in c]))
        if isinstance(c, dict):
            for q in c:
                if x == q:
                    return True
            return False
    elif t is SymStr:
        return c.find(x) >= 0
    return x in c


def notin(c, x):
    return not_(contains(c, x))


def _pre(f):
    if f is True or f is False:
        return f
    r = core.CUR.ev(f)
    return SymBool(f) if r is None else r


def getitem(a, k):
    tk = type(k)
    if tk is SymStr or (tk is tuple and has_sym(k)):
        if isinstance(a, dict) and not isinstance(a, SymDict):
            for q in a:
                if _keyeq(q, k):
                    return a[q]
            m = getattr(type(a), "__missing__", None)
            if m is None:
                raise KeyError(k)
            return a[concrete(k)]
    elif tk is SymInt:
        if not isinstance(a, (dict, SymStr)):
            return a[concrete_int(k)]
        if isinstance(a, dict) and not isinstance(a, SymDict):
            for q in a:
                if _keyeq(q, k):
                    return a[q]
            raise KeyError(k)
    elif tk is SymBool:
        return a[int(bool(k))]
    elif tk is slice and not isinstance(a, SymStr):
        if type(k.start) is SymInt or type(k.stop) is SymInt or type(k.step) is SymInt:
            f = lambda v: concrete_int(v) if type(v) is SymInt else v
            return a[slice(f(k.start), f(k.stop), f(k.step))]
    return a[k]


# ------------------------------------------------------------------ strings
def fstr(*parts):
    """f-string: str parts and (value, conversion, spec) tuples."""
    items = []
    for p in parts:
        if type(p) is str:
            items.extend(p)
        else:
            v, conv, spec = p
            items.extend(items_of(_fmt(v, conv, spec)))
    return mk(tuple(items))


def _fmt(v, conv, spec):
    if conv == "r":
        return call(repr, v)
    if conv == "a":
        return ascii(deep_concrete(v))
    if conv == "s":
        v = call(str, v)
    if not spec:
        t = type(v)
        if t is str or t is SymStr:
            return v
        if t is SymInt or t is SymBool:
            return sym_str(v)
        if isinstance(v, HasSym) and v._is_sym() and type(v).__format__ is object.__format__:
            return call(str, v)
        if type(v).__format__ is object.__format__:
            return call(str, v)
        return format(v, "")
    if type(spec) is SymStr:
        spec = concrete(spec)
    if type(v) is SymInt and spec.isdigit() and spec[0] == "0":
        s = sym_str(v)
        return s.zfill(int(spec))
    return format(deep_concrete(v), spec)


def str_join(sep, it):
    sp = items_of(sep)
    out = []
    first = True
    for n, x in enumerate(it):
        if not first:
            out.extend(sp)
        first = False
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (n, type(x).__name__))
        out.extend(items_of(x))
    return mk(tuple(out))


def str_format(fmt, args, kw):
    fmt = concrete(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        head = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                head, rest = field[:i], field[i:]
                break
        if head == "":
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        while rest:
            if rest[0] == ".":
                j = 1
                while j < len(rest) and rest[j] not in ".[":
                    j += 1
                v = getattr(v, rest[1:j])
                rest = rest[j:]
            else:
                j = rest.index("]")
                key = rest[1:j]
                v = v[int(key) if key.isdigit() else key]
                rest = rest[j + 1:]
        if spec and "{" in spec:
            spec = str_format(spec, args, kw)
        out.extend(items_of(_fmt(v, conv, spec)))
    return mk(tuple(out))


def str_mod(fmt, args):
    """fmt % args for %s/%d/%r/%% without flags, symbolically."""
    if type(args) is not tuple:
        if isinstance(args, dict):
            return concrete(fmt) % deep_concrete(args)
        args = (args,)
    out = []
    i = n = 0
    fmt = concrete(fmt)
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        k = fmt[i + 1: i + 2]
        if k == "%":
            out.append("%")
        elif k in ("s", "d", "r"):
            if n >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[n]
            n += 1
            out.extend(items_of(call(repr, v) if k == "r" else call(str, v)))
        else:
            return fmt % deep_concrete(args)
        i += 2
    if n != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return mk(tuple(out))


def mod(a, b):
    if isinstance(a, str):
        if type(a) is SymStr or has_sym(b):
            return str_mod(a, b)
    return a % b


# ------------------------------------------------------------------ calls
_PASS = {typing.cast, typing.TypeVar, isinstance, issubclass, super, property, staticmethod,
         classmethod, callable, id, setattr, delattr, vars, enumerate, zip, iter, next,
         reversed, any, all, print}


class TypeShim:
    pass


def _type1(x):
    if type(x) is SymStr:
        return str
    if type(x) is SymInt:
        return int
    if type(x) is SymBool:
        return bool
    return type(x)


def _wrapcb(f):
    if f is None or type(f) is FunctionType or type(f) is MethodType:
        return f
    return lambda *a, **k: call(f, *a, **k)


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if "key" in k:
            k["key"] = _wrapcb(k["key"])
        seq = a if len(a) > 1 else None
        if seq and len(seq) == 2 and not k and all(
            type(x) is SymInt or type(x) is int for x in seq
        ) and any(type(x) is SymInt for x in seq):
            x, y = seq
            cond = (y < x) if name == "min" else (y > x)
            return y if cond else x
        return real(*a, **k)

    return f


def _range(*a):
    return range(*[concrete_int(x) if type(x) is SymInt else x for x in a])


def _getattr(o, n, *d):
    return getattr(o, concrete(n), *d)


def _hasattr(o, n):
    return hasattr(o, concrete(n))


def _repr(x):
    if type(x) in SYM:
        return repr(deep_concrete(x))
    return repr(x)


def _sorted(it, key=None, reverse=False):
    return sorted(it, key=_wrapcb(key), reverse=reverse)


def _len(x):
    return len(x)


def _bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


def _abs(x):
    return abs(x)


def _round(x, *n):
    if type(x) is SymInt and not n:
        return x
    return round(deep_concrete(x), *n)


def _float(x=0.0):
    from . import nums
    if type(x) is SymStr:
        return nums.sym_float(x)
    held = isinstance(x, HasSym)
    if held:
        x = x._symval()
    if type(x) is SymInt:
        if not (-2 ** 53 <= x) or not (x <= 2 ** 53):
            return float(concrete_int(x))       # not every such integer has a float
        return x  # integral values only; see DESIGN (numbers)
    if held:
        return nums.SymDec(x.num, x.scale, None) if type(x) is nums.SymD else x
    return float(x)


def _int(x=0, *base):
    if isinstance(x, HasSym):
        x = x._symval()
        if getattr(type(x), "symd", False):
            return x.integer()
    if type(x) is SymStr:
        return sym_int(x, *base)
    if type(x) is SymInt:
        return x
    return int(x, *base)


def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in SYM:
            return sym_str(x)
        if isinstance(x, HasSym) and x._is_sym():
            return x._symstr()
        m = type(x).__str__
        if type(m) is FunctionType and "__sx__" in m.__globals__:
            return m(x)
        if isinstance(x, BaseException) and m in (BaseException.__str__, Exception.__str__, ValueError.__str__):
            if has_sym(x.args):
                if len(x.args) == 1:
                    return _str(x.args[0])
                return _repr(deep_concrete(x.args))
    elif a and type(a[0]).__name__ == "Bytes" and hasattr(a[0], "decode"):
        return a[0].decode(*a[1:], **k)         # str(bytes, encoding)
    return str(*a, **k)


def _divmod(a, b):
    return (a // b, a % b)


def _map(f, *its):
    return map(_wrapcb(f), *its)


def _filter(f, it):
    return filter(_wrapcb(f), it)


def _listf(it=()):
    return list(it)


def _hash(x):
    return hash(x)


def _typef(*a):
    if len(a) == 1:
        return _type1(a[0])
    return type(*a)


def _frozenset(it=()):
    return SymFrozen(it)


MODEL = {
    str: _str, int: _int, float: _float, bool: _bool, ord: sym_ord, chr: sym_chr,
    type: _typef, sum: _sum, min: _minmax("min"), max: _minmax("max"), range: _range,
    getattr: _getattr, hasattr: _hasattr, repr: _repr, sorted: _sorted, dict: mkdict_from,
    set: mkset, frozenset: _frozenset, map: _map, filter: _filter, round: _round,
    divmod: _divmod, abs: _abs, list: _listf, tuple: tuple, len: _len, hash: _hash,
    _functools.reduce: lambda f, *a: _functools.reduce(_wrapcb(f), *a),
    _functools.partial: lambda f, *a, **k: _functools.partial(_wrapcb(f), *a, **k),
}

_strtypes = {}
FOREIGN_MODEL = {}    # library function -> symbolic equivalent
INSTANCE_MODEL = {}   # class of a callable instance -> symbolic equivalent

def kw(d):
    """The mapping of a ** argument: names are fixed, one path per spelling."""
    if isinstance(d, dict):
        for k in dict.keys(d):
            if type(k) is SymStr:
                return {concrete(k): v for k, v in dict.items(d)}
    return d


def call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        g = f.__globals__
        if "__sx__" in g or g.get("__name__", "").startswith("sx."):
            return f(*a, **k)
        if f in _PASS:
            return f(*a, **k)
        m = FOREIGN_MODEL.get(f)
        if m is not None:
            return m(*a, **k)
        return foreign(f, a, k)
    if t is MethodType:
        g = f.__func__
        if type(g) is FunctionType:
            if "__sx__" in g.__globals__ or g.__globals__.get("__name__", "").startswith("sx."):
                return f(*a, **k)
            m = FOREIGN_MODEL.get(g)
            if m is not None:
                return m(f.__self__, *a, **k)
            w = getattr(g, "__wrapped__", None)
            if w is not None and "__sx__" in getattr(w, "__globals__", ()):
                return f(*a, **k)
        if type(f.__self__) in SYM:
            return f(*a, **k)
        return foreign(f, a, k)
    try:
        m = MODEL.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is type or isinstance(f, type):
        mod_ = f.__module__
        if mod_.partition(".")[0] in PKG or mod_ == "itertools" or f in _PASS:
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        return foreign(f, a, k)
    if t is BuiltinFunctionType:
        s = f.__self__
        if isinstance(s, str) and type(s) is not SymStr:
            n = f.__name__
            if n == "join":
                it = list(a[0])
                for x in it:
                    if type(x) is not str:
                        return str_join(s, it)
                return f(it)
            if n == "format":
                for x in a:
                    if not isinstance(x, (str, int)) or type(x) in SYM:
                        return str_format(s, a, k)
                for x in k.values():
                    if not isinstance(x, (str, int)) or type(x) in SYM:
                        return str_format(s, a, k)
                return f(*a, **k)
            if a and has_sym(a):
                return getattr(SymStr(tuple(s)), n)(*a, **k)
            return f(*a, **k)
        if f in _PASS:
            return f(*a, **k)
        if isinstance(s, (list, dict, set)):
            if type(s) is list and f.__name__ == "sort" and "key" in k:
                k["key"] = _wrapcb(k["key"])
            if type(s) is dict and a and f.__name__ in ("get", "pop", "setdefault") and _symkey(a[0]):
                for q in s:
                    if _keyeq(q, a[0]):
                        return f(q, *a[1:])
                return f(concrete(a[0]), *a[1:])
            return f(*a, **k)
        return foreign(f, a, k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if f.__objclass__ is str and a and (has_sym(a)):
            return getattr(SymStr(items_of(a[0])), f.__name__)(*a[1:], **k)
        if f.__objclass__ is dict and a and isinstance(a[0], SymDict):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return f(*a, **k)
    m = INSTANCE_MODEL.get(t)
    if m is not None:
        return m(f, *a, **k)
    return f(*a, **k)


FOREIGN_OK = {dataclasses.replace}


def foreign(f, a, k):
    """A function outside the rewritten code: run it on symbolic values, or fix them."""
    if core.CUR is None or not (has_sym(a) or (k and has_sym(k))):
        return f(*a, **k)
    try:
        if f in FOREIGN_OK:
            return f(*a, **k)
    except TypeError:
        pass
    w = getattr(f, "__wrapped__", None)
    if w is not None and "__sx__" in getattr(w, "__globals__", ()):
        return f(*a, **k)
    core.CUR.stats.tags["fixed:" + getattr(f, "__qualname__", str(f))] = 1
    return f(*deep_concrete(a), **deep_concrete(k))
