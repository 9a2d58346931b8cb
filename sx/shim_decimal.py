"""Decimal over exact symbolic numerals num * 10**-scale; everything else of the module is the real one."""
import decimal as _d
from decimal import *  # noqa: F401,F403
from fractions import Fraction
from . import core, nums
from .core import Truncated
from .nums import SymDec, _NumBase, _fakes
from .vals import SymInt, SymStr, SymBool, HasSym, concrete, concrete_int, deep_concrete, int_to_str


def __getattr__(name):
    return getattr(_d, name)


class SymD(HasSym):
    """A finite Decimal with exponent -scale; zero has no sign."""
    symd = True
    __class__ = property(lambda self: _d.Decimal)

    def __init__(self, num, scale):
        self.num = num
        self.scale = scale

    def _symval(self):
        return self

    def _is_sym(self):
        return True

    def _concrete(self):
        return _d.Decimal(concrete_int(self.num)).scaleb(-self.scale)

    def _symstr(self):
        neg = bool(self.num < 0)
        t = int_to_str(0 - self.num if neg else self.num)
        s = self.scale
        if s > 6 or s < 0:
            return str(self._concrete())
        if s:
            n = len(t)
            if n <= s:
                t = "0" * (s + 1 - n) + t
            t = t[:-s] + "." + t[-s:]
        return "-" + t if neg else t

    def __getattr__(self, name):
        if name.startswith("__") or name in ("num", "scale", "options"):
            raise AttributeError(name)
        return getattr(self._concrete(), name)

    def _pair(self, o):
        """Both sides as integers on a common scale."""
        if isinstance(o, HasSym):
            o = o._symval()
        if type(o) is SymD:
            s = max(self.scale, o.scale)
            return self.num * 10 ** (s - self.scale), o.num * 10 ** (s - o.scale)
        if type(o) is SymInt or type(o) is int or type(o) is bool:
            return self.num, o * 10 ** self.scale
        if type(o) is float or isinstance(o, _d.Decimal):
            f = Fraction(o)
            return self.num * f.denominator, f.numerator * 10 ** self.scale
        return None

    def _cmp(self, o, kind):
        if isinstance(o, HasSym):
            o = o._symval()
        if type(o) is SymDec:
            # the float is the decimal exactly when it is a binary fraction
            s = max(self.scale, o.scale)
            a, b = self.num * 10 ** (s - self.scale), o.num * 10 ** (s - o.scale)
            if bool(a == b):
                if not bool(a % 5 ** s == 0):
                    raise Truncated("a Decimal beside its nearest float") if kind not in ("==", "!=") else _Inexact()
            p = (a, b)
        elif type(o) is float and (o != o or o in (float("inf"), float("-inf"))) or isinstance(o, _d.Decimal) \
                and not type(o) is SymD and not o.is_finite():
            return {"==": False, "!=": True, "<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[kind]
        else:
            p = self._pair(o)
        if p is None:
            return NotImplemented
        a, b = p
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                ">=": lambda: a >= b}[kind]()

    def __eq__(self, o):
        try:
            return self._cmp(o, "==")
        except _Inexact:
            return False

    def __ne__(self, o):
        try:
            return self._cmp(o, "!=")
        except _Inexact:
            return True

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        return hash(self._concrete())

    def __bool__(self):
        return bool(self.num != 0)

    def __neg__(self):
        return SymD(0 - self.num, self.scale)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymD(0 - self.num, self.scale) if self.num < 0 else self

    def _arith(self, o, f):
        p = None if isinstance(o, float) else self._pair(o)
        if p is None:
            return NotImplemented
        o = o._symval() if isinstance(o, HasSym) else o
        s = max(self.scale, o.scale) if type(o) is SymD else self.scale if not isinstance(o, _d.Decimal) else None
        if s is None:
            return NotImplemented
        return SymD(f(*p), s)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __mul__(self, o):
        if type(o) is int or type(o) is SymInt:
            return SymD(self.num * o, self.scale)
        return self._concrete() * deep_concrete(o)

    __rmul__ = __mul__

    def __int__(self):
        return int(self._concrete())

    def __float__(self):
        return float(self._concrete())

    def __round__(self, *a):
        return round(self._concrete(), *a)

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __str__(self):
        return str(self._concrete())

    def __repr__(self):
        return repr(self._concrete())

    def is_nan(self):
        return False

    is_snan = is_qnan = is_infinite = is_nan

    def is_finite(self):
        return True

    def is_zero(self):
        return self.num == 0

    def is_signed(self):
        return self.num < 0

    def scaleb(self, k, context=None):
        return SymD(self.num, self.scale - deep_concrete(k))

    def integer(self):
        q = 10 ** self.scale
        return 0 - (0 - self.num) // q if self.num < 0 else self.num // q


class _Inexact(Exception):
    pass


class Meta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls.__module__.startswith("sx.") and isinstance(x, _d.Decimal)

    def __subclasscheck__(cls, k):
        if type.__subclasscheck__(cls, k):
            return True
        return cls.__module__.startswith("sx.") and type.__subclasscheck__(_d.Decimal, k)

    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_d.Decimal, name)


def value_of(v):
    if isinstance(v, HasSym):
        v = v._symval()
    if type(v) is SymD or type(v) is _d.Decimal:
        return v
    if type(v) is SymInt:
        return SymD(v, 0)
    return _d.Decimal(deep_concrete(v))


class Decimal(_NumBase, metaclass=Meta):
    __class__ = property(lambda self: _fakes(type(self), _d.Decimal))

    def __new__(cls, value="0", context=None, /, *a, **k):
        v = value_of(value)
        if cls is Decimal:
            return v
        self = object.__new__(cls)
        self._v = v
        return self

    def __init__(self, /, *a, **k):
        pass

    def _symstr(self):
        return self._v._symstr() if type(self._v) is SymD else str(self._v)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_v", "options"):
            raise AttributeError(name)
        return getattr(self._v, name)


nums.SymD = SymD
