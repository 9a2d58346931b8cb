"""json for rewritten code.  dumps/loads of symbolic data round-trip the data itself (json is trusted)."""
from json import *  # noqa: F401,F403
import json as _json
from .vals import has_sym, SymStr


class JText(str):
    data = None


def _copy(x):
    if isinstance(x, dict):
        for k in x:
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError("keys must be str, int, float, bool or None")
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_copy(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def dumps(obj, *a, **k):
    t = JText("<json>")
    t.data = _copy(obj)
    return t


def load(f, *a, **k):
    return loads(f.read(), *a, **k)


def dump(obj, f, *a, **k):
    f.write(dumps(obj, *a, **k))


def loads(s, *a, **k):
    if isinstance(s, JText):
        return _copy(s.data)
    return _json.loads(s, *a, **k)
