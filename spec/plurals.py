"""CLDR plural categories written from the CLDR rule tables, over exact decimals num * 10**-scale.

The functions take the absolute value; decimals carry no trailing zeros (as a float argument does).
"""


def strip(num, scale):
    """Drop trailing zeros of the fraction."""
    if num < 0:
        num = 0 - num
    while scale > 0 and num % 10 == 0:
        num = num // 10
        scale -= 1
    return num, scale


def one_other(num, scale):
    """en, de, sv...: one: i = 1 and v = 0"""
    return "one" if scale == 0 and num == 1 else "other"


def en_ordinal(num, scale):
    if scale:
        return "other"
    d, h = num % 10, num % 100
    if d == 1 and h != 11:
        return "one"
    if d == 2 and h != 12:
        return "two"
    if d == 3 and h != 13:
        return "few"
    return "other"


def ar(num, scale):
    if scale:
        return "other"
    if num == 0:
        return "zero"
    if num == 1:
        return "one"
    if num == 2:
        return "two"
    h = num % 100
    if h >= 3 and h <= 10:
        return "few"
    if h >= 11:
        return "many"
    return "other"


def pl(num, scale):
    if scale:
        return "other"
    if num == 1:
        return "one"
    d, h = num % 10, num % 100
    if d >= 2 and d <= 4 and not (h >= 12 and h <= 14):
        return "few"
    return "many"


def cs(num, scale):
    if scale:
        return "many"
    if num == 1:
        return "one"
    if num >= 2 and num <= 4:
        return "few"
    return "other"


def ru(num, scale):
    if scale:
        return "other"
    d, h = num % 10, num % 100
    if d == 1 and h != 11:
        return "one"
    if d >= 2 and d <= 4 and not (h >= 12 and h <= 14):
        return "few"
    return "many"


def lv(num, scale):
    """zero: n % 10 = 0 or n % 100 = 11..19 or v = 2 and f % 100 = 11..19
    one: n % 10 = 1 and n % 100 != 11 or v = 2 and f % 10 = 1 and f % 100 != 11 or v != 2 and f % 10 = 1"""
    if scale == 0:
        d, h = num % 10, num % 100
        if d == 0 or (h >= 11 and h <= 19):
            return "zero"
        if d == 1:
            return "one"
        return "other"
    f = num % 10 ** scale
    if scale == 2:
        if f >= 11 and f <= 19:
            return "zero"
    if f % 10 == 1:
        return "one"
    return "other"


def other(num, scale):
    return "other"


CARDINAL = {"en-US": one_other, "de": one_other, "ar": ar, "pl": pl, "cs": cs, "ru": ru, "lv": lv, "ja": other}
ORDINAL = {"en-US": en_ordinal, "de": other, "pl": other, "ja": other, "cs": other, "ru": other}


def category(locale, ordinal, num, scale):
    num, scale = strip(num, scale)
    return (ORDINAL if ordinal else CARDINAL)[locale](num, scale)
