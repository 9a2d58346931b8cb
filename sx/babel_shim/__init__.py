"""babel for rewritten code: the real library, with number and plural rendering decided symbolically."""
import babel as _b
from babel import *  # noqa: F401,F403
from . import core, dates, numbers, plural  # noqa: F401

Locale = _b.Locale
UnknownLocaleError = _b.UnknownLocaleError


def __getattr__(name):
    return getattr(_b, name)
