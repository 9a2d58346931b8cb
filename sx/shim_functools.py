"""functools for rewritten code: caches are kept per explored path and compare keys symbolically."""
from functools import *  # noqa: F401,F403
from functools import partial, reduce as _reduce, wraps, cached_property  # noqa: F401
from . import core


def _mkcache(fn):
    from .ops import SymDict
    state = {"epoch": None, "d": None}

    @wraps(fn)
    def w(*a, **k):
        ep = core.Ctx.epoch if core.CUR is not None else -1
        if state["epoch"] != ep:
            state["epoch"] = ep
            state["d"] = SymDict()
        key = a + tuple(x for kv in sorted(k.items()) for x in kv)
        d = state["d"]
        try:
            if key in d:
                return d[key]
        except TypeError:
            raise
        r = fn(*a, **k)
        d[key] = r
        return r

    def cache_clear():
        state["epoch"] = None
    w.cache_clear = cache_clear
    w.cache_info = lambda: None
    w.__wrapped__ = fn
    return w


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _mkcache(maxsize)
    return _mkcache


def cache(fn):
    return _mkcache(fn)


def reduce(f, *a):
    from .ops import _wrapcb
    return _reduce(_wrapcb(f), *a)
