"""Plural rules of babel interpreted over symbolic numbers."""
import babel.plural as _b
from babel.plural import *  # noqa: F401,F403
from babel.plural import PluralRule, to_python as _to_python
from .. import ops
from ..nums import SymDec
from ..shim_decimal import SymD
from ..vals import SymInt, HasSym


def __getattr__(name):
    return getattr(_b, name)


def operands(v):
    if type(v) is SymInt:
        n = 0 - v if v < 0 else v
        return {"n": n, "i": n, "v": 0, "w": 0, "f": 0, "t": 0, "c": 0, "e": 0}
    num = 0 - v.num if v.num < 0 else v.num
    scale = v.scale
    if type(v) is SymD:
        return exact(num, scale)
    while scale > 0 and num % 10 == 0:
        num = num // 10
        scale -= 1
    if scale == 0:
        return {"n": num, "i": num, "v": 0, "w": 0, "f": 0, "t": 0, "c": 0, "e": 0}
    frac = num % 10 ** scale
    shown = scale
    while shown > 1 and num < 10 ** (shown - 1):
        shown -= 1          # babel does not count the zeros between the point and the first digit
    return {"n": None, "i": num // 10 ** scale, "v": shown, "w": shown, "f": frac, "t": frac, "c": 0, "e": 0,
            "dec": (num, scale)}


def exact(num, scale):
    """Operands of a Decimal, whose trailing zeros count."""
    if scale <= 0:
        num = num * 10 ** -scale
        return {"n": num, "i": num, "v": 0, "w": 0, "f": 0, "t": 0, "c": 0, "e": 0}
    shown = scale
    while shown > 1 and num < 10 ** (shown - 1):
        shown -= 1          # as above
    frac = num % 10 ** scale
    i = num // 10 ** scale
    t, w = frac, shown
    while w > 0 and t % 10 == 0:
        t = t // 10
        w -= 1
    return {"n": i if frac == 0 else None, "i": i, "v": shown, "w": w, "f": frac, "t": t, "c": 0, "e": 0, "dec": (num, scale)}


def value(a, env):
    op, args = a
    if op == "value":
        return args[0]
    if op == "mod":
        x = value(args[0], env)
        return None if x is None else x % value(args[1], env)
    return env[op]


def holds(a, env):
    op, args = a
    if op == "and":
        return holds(args[0], env) and holds(args[1], env)
    if op == "or":
        return holds(args[0], env) or holds(args[1], env)
    if op == "not":
        return not holds(args[0], env)
    if op in ("is", "isnot"):
        x = value(args[0], env)
        r = x is not None and bool(x == value(args[1], env))
        return r if op == "is" else not r
    if op == "relation":
        kind, expr, ranges = args
        x = value(expr, env)
        for lo, hi in ranges[1]:
            lo, hi = value(lo, env), value(hi, env)
            if x is None:
                if kind == "within" and expr[0] == "n":
                    num, scale = env["dec"]
                    if num >= lo * 10 ** scale and num <= hi * 10 ** scale:
                        return True
                continue
            if lo == hi:
                if x == lo:
                    return True
            elif x >= lo and x <= hi:
                return True
        return False
    raise ValueError(op)


def evaluate(rule, n):
    v = n._symval() if isinstance(n, HasSym) else n
    if type(v) not in (SymInt, SymDec, SymD):
        return rule(v)
    env = operands(v)
    for tag, a in rule.abstract:
        if holds(a, env):
            return tag
    return "other"


def to_python(rule):
    rule = PluralRule.parse(rule)
    real = _to_python(rule)

    def form(n):
        v = n._symval() if isinstance(n, HasSym) else n
        if type(v) not in (SymInt, SymDec, SymD):
            return real(v)
        return evaluate(rule, v)
    return form


ops.FOREIGN_MODEL[_to_python] = to_python
ops.INSTANCE_MODEL[PluralRule] = evaluate
