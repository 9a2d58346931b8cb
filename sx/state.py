"""Every explored path starts from the module state of a fresh import.

Module globals, class attributes, default arguments and module-level instances of the
rewritten code under test are recorded after import and put back before each path.
"""
import sys
import types

CONT = (dict, list, set)


class Snapshot:
    def __init__(self, prefix="sxfluent"):
        self.ns = []      # (mapping-like owner, is_class, {name: value})
        self.cont = {}    # id -> (container, copy)
        self.objs = []    # (obj, dict copy)
        seen = set()
        for n, m in sorted(sys.modules.items()):
            if (n == prefix or n.startswith(prefix + ".")) and m is not None:
                self._ns(m.__dict__, seen)

    def _ns(self, d, seen):
        items = {k: v for k, v in d.items() if not k.startswith("__")}
        self.ns.append((d, None, items))
        for v in items.values():
            self._val(v, seen)

    def _val(self, v, seen, depth=0):
        if id(v) in seen or depth > 4:
            return
        if isinstance(v, type):
            if v.__module__.startswith("sxfluent"):
                seen.add(id(v))
                items = {k: x for k, x in vars(v).items() if not k.startswith("__")}
                self.ns.append((v, v, items))
                for x in list(items.values()) + [vars(v).get("__init__"), vars(v).get("__call__")]:
                    self._val(x, seen, depth + 1)
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._val(f, seen, depth + 1)
            return
        if isinstance(v, types.FunctionType):
            seen.add(id(v))
            if "__sx__" in v.__globals__:
                for x in (v.__defaults__ or ()):
                    self._val(x, seen, depth + 1)
                for x in (v.__kwdefaults__ or {}).values():
                    self._val(x, seen, depth + 1)
                for c in (v.__closure__ or ()):
                    try:
                        self._val(c.cell_contents, seen, depth + 1)
                    except ValueError:
                        pass
                if v.__dict__:
                    self._val(v.__dict__, seen, depth + 1)
            return
        t = type(v)
        if isinstance(v, CONT):
            if t.__module__ in ("builtins", "collections") or t.__module__.startswith("sx"):
                seen.add(id(v))
                self.cont[id(v)] = (v, list(dict.items(v)) if isinstance(v, dict) else list(v),
                                    getattr(v, "_s", None))
                if len(v) < 200:
                    for x in (list(dict.values(v)) if isinstance(v, dict) else list(v)):
                        self._val(x, seen, depth + 1)
            return
        if t.__module__.startswith("sxfluent") and hasattr(v, "__dict__"):
            seen.add(id(v))
            self.objs.append((v, dict(v.__dict__)))
            for x in v.__dict__.values():
                self._val(x, seen, depth + 1)

    def restore(self):
        for d, cls, items in self.ns:
            cur = vars(cls) if cls is not None else d
            for k, v in items.items():
                if cur.get(k, _MISSING) is not v:
                    if cls is not None:
                        setattr(cls, k, v)
                    else:
                        d[k] = v
            if len(cur) > len(items):
                extra = [k for k in cur if not k.startswith("__") and k not in items]
                for k in extra:
                    if cls is not None:
                        delattr(cls, k)
                    else:
                        del d[k]
        for c, items, s in self.cont.values():
            if isinstance(c, dict):
                now = list(dict.items(c))
                if len(now) != len(items) or any(a[1] is not b[1] for a, b in zip(now, items)):
                    dict.clear(c)
                    for k, v in items:
                        dict.__setitem__(c, k, v)
                    if s is not None or hasattr(c, "_s"):
                        try:
                            c._s = bool(s)
                        except AttributeError:
                            pass
            elif isinstance(c, list):
                if len(c) != len(items) or any(a is not b for a, b in zip(c, items)):
                    c[:] = items
            elif len(c) != len(items):
                set.clear(c)
                for x in items:
                    set.add(c, x)
        for o, d in self.objs:
            if o.__dict__ != d:
                o.__dict__.clear()
                o.__dict__.update(d)


_MISSING = object()
