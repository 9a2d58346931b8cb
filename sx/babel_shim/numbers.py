"""NumberPattern.apply for exact symbolic decimals; every concrete call goes to the real babel."""
import babel.numbers as _b
from babel.numbers import *  # noqa: F401,F403
from babel.numbers import NumberPattern, parse_pattern  # noqa: F401
from .. import ops
from ..nums import SymDec
from ..shim_decimal import SymD
from ..vals import cin, SymInt, SymStr, HasSym, concrete_int, deep_concrete, int_to_str, items_of, mk
from .. import core
from ..core import Truncated, charset

_real_apply = NumberPattern.apply


def __getattr__(name):
    return getattr(_b, name)


def plain(v):
    return v._symval() if isinstance(v, HasSym) else v


def precs(t):
    """A precision pair with its symbolic members fixed (one path per value)."""
    out = []
    for x in t:
        x = plain(x)
        out.append(concrete_int(x) if type(x) is SymInt else x)
    return tuple(out)


def fixed_pattern(p):
    q = object.__new__(type(p))
    q.__dict__.update(p.__dict__)
    q.int_prec = precs(p.int_prec)
    q.frac_prec = precs(p.frac_prec)
    q.prefix = deep_concrete(tuple(p.prefix))
    q.suffix = deep_concrete(tuple(p.suffix))
    return q


def digits(n):
    """Decimal digits of a non-negative int as a list of characters."""
    return list(str(n)) if type(n) is int else list(items_of(int_to_str(n)))


def group(ds, gs, symbol, least):
    ds = list(ds)
    if len(ds) < least:
        ds = ["0"] * (least - len(ds)) + ds
    size = gs[0]
    ret = []
    while len(ds) > size:
        ret = list(symbol) + ds[-size:] + ret
        ds = ds[:-size]
        size = gs[1]
    return ds + ret


def half_even(n, scale, keep):
    """n * 10**-scale rounded to keep decimals, as a multiple of 10**-keep."""
    if scale <= keep:
        return n * 10 ** (keep - scale)
    m = 10 ** (scale - keep)
    q, r = n // m, n % m
    if r * 2 > m:
        return q + 1
    if r * 2 == m and q % 2 == 1:
        return q + 1
    return q


def too_precise(n):
    """Decimal.quantize keeps at most 28 digits."""
    if n >= 10 ** 28:
        raise _b.decimal.InvalidOperation([_b.decimal.InvalidOperation])


HOLE = "\ue123"


def _currencies(locale):
    return sorted(set(_b.Locale.parse(locale).currency_symbols) | set(_b.get_global("currency_fractions")))


def known_name(s, names, fold=False):
    """The name equal to the symbolic string s (ASCII letters folded on request), or None for all other strings."""
    it = items_of(s)
    for name in names:
        if len(name) != len(it):
            continue
        ok = True
        for x, c in zip(it, name):
            if isinstance(x, str):
                ok = x == c or fold and x.isascii() and x.lower() == c.lower()
                if not ok:
                    break
        if not ok:
            continue
        for x, c in zip(it, name):
            if not isinstance(x, str):
                alts = {c, c.lower(), c.upper()} if fold else {c}
                if not core.CUR.branch(cin(x, charset("".join(sorted(alts))))):
                    ok = False
                    break
        if ok:
            return name
    return None


def apply(self, value, locale, currency=None, currency_digits=True, decimal_quantization=True, force_frac=None,
          group_separator=True, **kw):
    v = plain(value)
    p = fixed_pattern(self)
    currency = plain(currency)
    currency_digits = bool(currency_digits)
    group_separator = bool(group_separator)
    if type(currency) is SymStr:
        found = known_name(currency, _currencies(locale))
        if found is None and not ops.contains(currency, "'") and not ops.contains(currency, "¤") \
                and "¤¤" not in p.prefix[0] + p.suffix[0]:
            # no such currency: it is shown as it is, with the default precision
            text = apply(self, value, locale, HOLE, currency_digits, decimal_quantization, force_frac,
                         group_separator, **kw)
            out = []
            for x in items_of(text):
                out.extend(items_of(currency) if x == HOLE else [x])
            return mk(tuple(out))
        currency = found if found is not None else deep_concrete(currency)
    else:
        currency = deep_concrete(currency)
    if type(v) not in (SymInt, SymDec, SymD):
        return _real_apply(p, v, locale, currency, currency_digits, decimal_quantization, force_frac,
                           group_separator, **kw)
    if p.exp_prec or not decimal_quantization or force_frac:
        raise Truncated("number pattern form")
    num, scale = (v, 0) if type(v) is SymInt else (v.num, v.scale)
    num = num * 10 ** p.scale
    neg = bool(num < 0)
    if neg:
        num = 0 - num
    dec = _b.get_decimal_symbol(locale)
    grp = _b.get_group_symbol(locale)
    if "@" in p.pattern:
        lo, hi = p.int_prec
        if not (isinstance(lo, int) and isinstance(hi, int)) or hi < 1:
            raise Truncated("significant digits %r" % (p.int_prec,))
        if num == 0:
            # babel: adjusted() of a normalized zero is 0
            zero = _b.decimal.Decimal((0, (0,), -v.scale)) if type(v) is SymD else _b.decimal.Decimal("0")
            return _real_apply(p, zero, locale, currency, currency_digits)
        k = len(digits(num))          # num has k digits, so the value has exponent k - 1 - scale
        exp = k - 1 - scale
        sc = hi - 1 - exp
        if sc >= scale:
            if k + sc - scale > 28:
                too_precise(10 ** 28)
            ds = digits(num) + ["0"] * (sc - scale)
        else:
            m = half_even(num, scale, sc) if sc >= 0 else half_even(num, scale - sc, 0)
            too_precise(m)
            ds = digits(m)
        if sc <= 0:
            text_i, text_f = ds + ["0"] * -sc, []
        else:
            text_i = ds[:-sc]
            i = len(text_i)
            j = i + max(lo - i, 0)
            extra = ds[j:]
            while extra and _eq0(extra[-1]):
                extra = extra[:-1]
            pad = ["0"] * -min(exp + 1, 0)
            text_f = pad + ds[i:j] + extra
            text_i = text_i or ["0"]
        number = group(text_i, p.grouping, grp, 0)
        if text_f:
            number = number + list(dec) + text_f
    else:
        lo, hi = p.frac_prec
        if currency and currency_digits:
            lo = hi = _b.get_currency_precision(currency)
        # digits beyond the value's own are zeros
        own = min(hi, scale)
        q = half_even(num, scale, own)
        too_precise(q * 10 ** (hi - own))
        ip, fp = (q // 10 ** own, q % 10 ** own) if own > 0 else (q, 0)
        ids = digits(ip)
        fds = digits(fp) if own > 0 else []
        fds = ["0"] * (own - len(fds)) + fds + ["0"] * (hi - own) if hi > 0 else ["0"]
        if group_separator:
            ids = group(ids, p.grouping, grp, p.int_prec[0])
        if len(fds) < lo:
            fds = fds + ["0"] * (lo - len(fds))
        if hi == 0 or (lo == 0 and bool(fp == 0)):
            fds = []
        else:
            while len(fds) > lo and _eq0(fds[-1]):
                fds = fds[:-1]
        number = ids + (list(dec) + fds if fds else [])
    pre, suf = p.prefix[neg], p.suffix[neg]
    if currency is not None:
        for a in ("¤¤¤", "¤¤", "¤"):
            if a in pre + suf:
                b = (currency.upper() if a == "¤¤" else _b.get_currency_symbol(currency, locale) if a == "¤"
                     else _b.get_currency_name(currency, None, locale))
                pre, suf = pre.replace(a, b), suf.replace(a, b)
    if "'" in pre + suf:
        raise Truncated("quoted number pattern")
    return mk(tuple(list(pre) + number + list(suf)))


def _eq0(c):
    return bool(SymStr((c,)) == "0") if not isinstance(c, str) else c == "0"


ops.FOREIGN_MODEL[_real_apply] = apply


_real_precision = _b.get_currency_precision


def get_currency_precision(currency):
    c = plain(currency)
    if type(c) is SymStr:
        fractions = _b.get_global("currency_fractions")
        found = known_name(c, sorted(k for k in fractions if k != "DEFAULT"))
        return fractions[found or "DEFAULT"][0]
    return _real_precision(c)


ops.FOREIGN_MODEL[_real_precision] = get_currency_precision
