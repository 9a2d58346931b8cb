"""Native side of the harness interface: plain values, plain assertions (no solver needed)."""


class Violation(Exception):
    """An assertion of a property does not hold."""


class NatInputs:
    def __init__(self, vals):
        self.v = vals

    def text(self, name, parts):
        return self.v[name]

    def str(self, name, n, dom=None):
        return self.v[name]

    def int(self, name, lo, hi):
        return self.v[name]

    def bool(self, name):
        return self.v[name]

    def choice(self, name, seq):
        return list(seq)[self.v[name]]


class NatE:
    sym = False

    def __init__(self):
        self.obs = []
        self.region = None
        self.tags = set()

    def check(self, cond, msg=""):
        if not cond:
            raise Violation(msg)

    def assume(self, cond):
        if not cond:
            raise SkipRun()

    def observe(self, x):
        self.obs.append(x)

    def tag(self, name):
        self.tags.add(name)

    def known(self, name):
        self.region = name

    def fail(self, msg):
        raise Violation(msg)

    def files(self, files):
        """A scratch directory holding the given files (relative path -> text, stored as UTF-8); removed afterwards."""
        import os
        import tempfile
        self._dir = tempfile.mkdtemp(prefix="verif-")
        for name, text in files.items():
            p = os.path.join(self._dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text.encode("utf-8"))
        return self._dir

    def printed(self, f, *a):
        """What a call prints."""
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            f(*a)
        return out.getvalue()

    def cleanup(self):
        if getattr(self, "_dir", None):
            import shutil
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class SkipRun(Exception):
    """The concrete input is outside the harness's assumptions."""
