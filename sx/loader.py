"""Import hook: sxfluent.* is the rewritten fluent.* of /repo; sxspec/sxprops likewise from /verif."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import ops, nums, rewrite

ops.IntBase = nums.IntBase
ops.FloatBase = nums.FloatBase
ops.not_ = ops.not_

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ROOTS = {
    "sxfluent.syntax": REPO + "/fluent.syntax/fluent/syntax",
    "sxfluent.runtime": REPO + "/fluent.runtime/fluent/runtime",
    "sxfluent.pygments": REPO + "/fluent.pygments/fluent/pygments",
    "sxfluent.docs": REPO + "/fluent.docs/fluent/docs",
    "sxspec": VERIF + "/spec",
    "sxprops": VERIF + "/props",
    "sxtools": REPO + "/tools",
}


def locate(name):
    """(path, is_pkg) for a rewritten module name."""
    for root, d in ROOTS.items():
        if name == root:
            return os.path.join(d, "__init__.py"), True
        if name.startswith(root + "."):
            rel = name[len(root) + 1:].replace(".", "/")
            p = os.path.join(d, rel + ".py")
            if os.path.exists(p):
                return p, False
            p = os.path.join(d, rel, "__init__.py")
            if os.path.exists(p):
                return p, True
    return None, False


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    cache = {}

    def find_spec(self, name, path, target=None):
        if name == "sxfluent":
            s = importlib.machinery.ModuleSpec(name, self, is_package=True)
            return s
        if name.partition(".")[0] in ("sxfluent", "sxspec", "sxprops", "sxtools"):
            p, pkg = locate(name)
            if p is None:
                return None
            s = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
            return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__spec__.name
        if name == "sxfluent":
            module.__path__ = []
            return
        p = module.__spec__.origin
        module.__file__ = p
        code = self.cache.get(p)
        if code is None:
            src = ""
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    src = f.read()
            short = name[2:]
            code = rewrite.transform(src, p, short, track=True)
            self.cache[p] = code
        d = module.__dict__
        d["__sx__"] = ops
        d["__sx_slice__"] = slice
        exec(code, d)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def native_paths():
    """Make the real, unmodified packages importable as fluent.* from /repo."""
    for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs"):
        d = os.path.join(REPO, p)
        if d not in sys.path:
            sys.path.insert(0, d)
    if REPO not in sys.path:
        sys.path.append(REPO)           # tools/


def drop():
    """Forget the rewritten modules so the next import starts from fresh module state."""
    for n in [n for n in sys.modules if n.partition(".")[0] == "sxfluent"]:
        del sys.modules[n]
