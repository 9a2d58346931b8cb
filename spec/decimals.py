"""How a number is written in en-US: digits, rounding, grouping, from the option definitions."""


PRECISION = {"USD": 2, "JPY": 0, "KWD": 3, "EUR": 2, "XTS": 2}
SYMBOL = {"USD": "$", "JPY": "¥", "EUR": "€"}


def half_even(n, scale, keep):
    if scale <= keep:
        return n * 10 ** (keep - scale)
    m = 10 ** (scale - keep)
    q, r = n // m, n % m
    if r * 2 > m or (r * 2 == m and q % 2 == 1):
        return q + 1
    return q


def grouped(text, grouping):
    if not grouping:
        return text
    out = ""
    while len(text) > 3:
        out = "," + text[-3:] + out
        text = text[:-3]
    return text + out


def fraction(text, least):
    while len(text) > least and text[-1] == "0":
        text = text[:-1]
    return text + "0" * (least - len(text)) if least > len(text) else text


def fixed(num, scale, lo, hi, least_int, grouping):
    """At least lo and at most hi decimals, at least least_int integer digits."""
    own = min(hi, scale)
    q = half_even(num, scale, own)
    text = str(q)
    if own > 0:
        if len(text) <= own:
            text = "0" * (own + 1 - len(text)) + text
        whole, frac = text[:-own], text[-own:]
    else:
        whole, frac = text, ""
    frac = fraction(frac, lo)
    if len(whole) < least_int:
        whole = "0" * (least_int - len(whole)) + whole
    whole = grouped(whole, grouping)
    return whole + "." + frac if frac else whole


def significant(num, scale, lo, hi, grouping):
    """Rounded to hi significant digits, padded with zeros to lo."""
    if num == 0:
        keep = hi - 1
    else:
        keep = hi - len(str(num)) + scale      # decimals kept
    if keep > scale:
        keep = scale                            # the digits beyond are zeros
    if keep >= 0:
        q = half_even(num, scale, keep)
    else:
        q = half_even(num, scale - keep, 0) * 10 ** -keep
        keep = 0
    text = str(q)
    if keep:
        if len(text) <= keep:
            text = "0" * (keep + 1 - len(text)) + text
        whole, frac = text[:-keep], text[-keep:]
    else:
        whole, frac = text, ""
    if whole != "0":
        sig = len(whole)
        least = lo - sig if lo > sig else 0
        frac = fraction(frac, least)
    else:
        lead = 0
        while lead < len(frac) and frac[lead] == "0":
            lead += 1
        frac = fraction(frac, lead + lo)
    whole = grouped(whole, grouping)
    return whole + "." + frac if frac else whole


def render(num, scale, opts):
    """opts: the NUMBER options actually given."""
    style = opts.get("style", "decimal")
    grouping = opts.get("useGrouping", True)
    if style == "percent":
        num = num * 100
        lo, hi = 0, 0
    elif style == "currency":
        lo = hi = PRECISION[opts["currency"]]
    else:
        lo, hi = 0, 3
    neg = True if num < 0 else False
    if neg:
        num = 0 - num
    minsd, maxsd = opts.get("minimumSignificantDigits"), opts.get("maximumSignificantDigits")
    if minsd is not None or maxsd is not None:
        a = minsd if minsd is not None else 1
        b = maxsd if maxsd is not None else max(a, 21)
        text = significant(num, scale, a, b, grouping)
    else:
        minf, maxf = opts.get("minimumFractionDigits"), opts.get("maximumFractionDigits")
        if minf is not None:
            lo = minf
            hi = max(hi, lo)
        if maxf is not None:
            hi = maxf
            lo = min(lo, hi)
        text = fixed(num, scale, lo, hi, opts.get("minimumIntegerDigits", 1), grouping)
    if style == "percent":
        text = text + "%"
    if style == "currency":
        text = SYMBOL.get(opts["currency"], opts["currency"]) + text if opts.get("currencyDisplay", "symbol") != "code" \
            else opts["currency"] + text
    return "-" + text if neg else text
