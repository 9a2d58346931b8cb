"""Numbers: exact decimal floats from symbolic text, and bases standing in for int/float."""
import z3
from decimal import Decimal
from fractions import Fraction
from . import core
from .core import charset
from .vals import SymBool, SymInt, SymStr, HasSym, SC, cin, concrete, concrete_int, mkb, not_, sym_int, int_to_str


class SymDec(HasSym):
    """num * 10**-scale with num a SymInt: a decimal numeral of at most 15 digits.

    float() of such numerals is injective, so equality and order of the floats are
    equality and order of the decimals.
    """

    __class__ = property(lambda self: float)

    def __init__(self, num, scale, text):
        self.num = num
        self.scale = scale
        self.text = text

    def _symval(self):
        return self

    def _is_sym(self):
        return True

    def _concrete(self):
        return float(self)

    def _symstr(self):
        return str(float(self))

    def _pair(self, o):
        if isinstance(o, HasSym):
            o = o._symval()
        if type(o) is SymDec:
            s = max(self.scale, o.scale)
            return self.num * 10 ** (s - self.scale), o.num * 10 ** (s - o.scale)
        if type(o) is SymInt or type(o) is int:
            return self.num, o * 10 ** self.scale
        if isinstance(o, Decimal) and type(o).__eq__ is Decimal.__eq__ and o.is_finite() \
                and Fraction(float(o)) == Fraction(o):
            o = float(o)
        if type(o) is float:
            if o != o or o in (float("inf"), float("-inf")):
                return None
            fr = Fraction(o).limit_denominator(10 ** 15)
            if float(fr) != o:
                return None
            s = self.scale
            while fr.denominator != 1 and (fr * 10 ** s).denominator != 1 and s < 15:
                s += 1
            if (fr * 10 ** s).denominator != 1:
                return None
            return self.num * 10 ** (s - self.scale), int(fr * 10 ** s)
        return None

    def __eq__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] == p[1]

    def __ne__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] != p[1]

    def __lt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] < p[1]

    def __le__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] <= p[1]

    def __gt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] > p[1]

    def __ge__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] >= p[1]

    def __hash__(self):
        return hash(float(self))

    def __float__(self):
        if self.text is None:
            return concrete_int(self.num) / 10 ** self.scale
        return float(concrete(self.text))

    def __neg__(self):
        return SymDec(0 - self.num, self.scale, None) if self.num != 0 else -float(self)

    def __abs__(self):
        return -self if self.num < 0 else self

    def is_integer(self):
        return self.num % 10 ** self.scale == 0

    def __int__(self):
        return int(float(self))

    def __round__(self, *a):
        return round(float(self), *a)

    def __format__(self, spec):
        return format(float(self), spec)

    def __repr__(self):
        return "<SymDec>"

    def __str__(self):
        return str(float(self))

    def __bool__(self):
        return bool(self.num != 0)


def sym_float(s):
    t = s.strip()
    if type(t) is not SymStr:
        return float(t)
    c = core.CUR
    it = list(t.i)
    body = it[1:] if it and c.branch(cin(it[0], charset("-+"))) else it
    dots = [k for k, x in enumerate(body) if c.branch(cin(x, charset(".")))]
    D = ((48, 57),)
    if len(dots) > 1 or not body or len(body) > 16:
        return float(concrete(t))
    for k, x in enumerate(body):
        if k not in dots and not c.branch(cin(x, D)):
            return float(concrete(t))
    digits = [x for k, x in enumerate(body) if k not in dots]
    if not digits or len(digits) > 15:
        return float(concrete(t))
    scale = len(body) - 1 - dots[0] if dots else 0
    num = sym_int(SymStr(tuple(digits)))
    if len(body) != len(it) and c.branch(cin(it[0], charset("-"))):
        if num == 0:
            return -0.0
        num = 0 - num
    if type(num) is int:
        return float(concrete(t))
    return SymDec(num, scale, t)


SymD = None           # set by shim_decimal


def _val(x):
    return x._symval() if isinstance(x, HasSym) else x


class _NumBase(HasSym):
    """Common part of the stand-ins for the builtin bases int and float."""

    def _symval(self):
        return self._v

    def _is_sym(self):
        return type(self._v) in (SymInt, SymDec, SymD)

    def _concrete(self):
        """A plain number for library code."""
        v = self._v
        if type(v) is SymInt:
            v = concrete_int(v)
        elif type(v) is SymDec:
            v = float(v)
        elif type(v) is SymD:
            v = v._concrete()
        return v

    def _symstr(self):
        if type(self._v) is SymInt:
            return int_to_str(self._v)
        return str(float(self._v))

    def __bool__(self):
        return bool(self._v)

    def __hash__(self):
        return hash(self._v)

    def __repr__(self):
        return repr(self._v)

    def __str__(self):
        return str(self._v)

    def __format__(self, spec):
        from .ops import _fmt
        return _fmt(self._v, None, spec)

    def __float__(self):
        return float(self._v)

    def __int__(self):
        return int(self._v)

    def __round__(self, *a):
        return round(self._v, *a)

    def __abs__(self):
        return abs(self._v)

    def __neg__(self):
        return -self._v

    def __pos__(self):
        return self._v

    def is_integer(self):
        return self._v.is_integer()


def _op(name):
    def f(self, o):
        return getattr(self._v, name)(_val(o)) if type(self._v) in (SymInt, SymDec, SymD) else _conc(self._v, name, _val(o))
    f.__name__ = name
    return f


_REFL = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__",
         "__ge__": "__le__", "__add__": "__radd__", "__radd__": "__add__", "__mul__": "__rmul__",
         "__rmul__": "__mul__", "__sub__": "__rsub__", "__rsub__": "__sub__"}


def _conc(v, name, o):
    r = getattr(v, name)(o)
    if r is NotImplemented and name in _REFL and (type(o) in (SymInt, SymDec, SymD, float, int) or isinstance(o, Decimal)):
        m = getattr(o, _REFL[name], None)
        if m is not None:
            r = m(v)
    return r


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__radd__", "__sub__",
           "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__mod__", "__rfloordiv__", "__rmod__",
           "__truediv__", "__rtruediv__", "__pow__"):
    setattr(_NumBase, _n, _op(_n))


class IntBase(_NumBase):
    __class__ = property(lambda self: _fakes(type(self), int))

    def __new__(cls, value=0, /, *a, **k):
        from .ops import _int
        self = object.__new__(cls)
        v = _int(value)
        self._v = int(v) if type(v) is not SymInt else v
        return self

    def __init__(self, /, *a, **k):
        pass

    def __index__(self):
        return concrete_int(self._v)

    @property
    def real(self):
        return self._v

    @property
    def numerator(self):
        return self._concrete()

    denominator = 1


class FloatBase(_NumBase):
    __class__ = property(lambda self: _fakes(type(self), float))

    def __new__(cls, value=0.0, /, *a, **k):
        from .ops import _float
        self = object.__new__(cls)
        v = _float(value)
        self._v = v if type(v) in (SymDec, SymInt) else float(v)
        return self

    def __init__(self, /, *a, **k):
        pass


_fake = {}


def _fakes(cls, base):
    """A class object that is a subclass of base and named like cls, for isinstance()."""
    k = (cls, base)
    r = _fake.get(k)
    if r is None:
        r = _fake[k] = type(cls.__name__, (base,), {"__module__": cls.__module__})
    return r
