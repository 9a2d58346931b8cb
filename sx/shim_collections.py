"""collections for rewritten code: dict subclasses accept symbolic keys."""
from collections import *  # noqa: F401,F403
import collections as _c


def __getattr__(n):
    return getattr(_c, n)


def _mk():
    from .ops import SymDict

    class defaultdict(SymDict):
        def __init__(self, default_factory=None, *a, **k):
            SymDict.__init__(self)
            self.default_factory = default_factory
            self.update(*a, **k)

        def __missing__(self, key):
            if self.default_factory is None:
                raise KeyError(key)
            v = self[key] = self.default_factory()
            return v

    class OrderedDict(SymDict):
        def __init__(self, *a, **k):
            SymDict.__init__(self)
            self.update(*a, **k)

        def move_to_end(self, k, last=True):
            v = self.pop(k)
            if last:
                self[k] = v
            else:
                rest = list(self.items())
                self.clear()
                self[k] = v
                self.update(rest)

        def popitem(self, last=True):
            k = list(self)[-1 if last else 0]
            return k, self.pop(k)

    class Counter(defaultdict):
        def __init__(self, it=()):
            defaultdict.__init__(self, int)
            if isinstance(it, dict):
                self.update(it)
            else:
                for x in it:
                    self[x] = self.get(x, 0) + 1

        def __missing__(self, key):
            return 0

    return defaultdict, OrderedDict, Counter


defaultdict, OrderedDict, Counter = _mk()
