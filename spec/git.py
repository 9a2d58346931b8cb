"""A stand-in for the git and sphinx-build commands: it answers queries on a given list of tags and records the rest."""
import shlex
import subprocess


class Raw:
    """Undecoded output."""

    def __init__(self, text):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        return self.text


class Done:
    def __init__(self, args, stdout):
        self.args = args
        self.returncode = 0
        self.stdout = stdout
        self.stderr = None

    def check_returncode(self):
        pass


class Unknown(Exception):
    """A command the stand-in does not know."""


class Tag:
    """name, date of the commit (text), and another date the tag might be asked for"""

    def __init__(self, name, date, other=None):
        self.name = name
        self.date = date
        self.other = other or date


def argv(cmd):
    return shlex.split(cmd) if isinstance(cmd, str) else [str(x) for x in cmd]


def options(words):
    """({option: value}, other words)"""
    opts = {}
    rest = []
    i = 0
    while i < len(words):
        w = words[i]
        if w == "-l":
            w = "--list"
        if w in ("--sort", "--format") and i + 1 < len(words):
            opts[w] = words[i + 1]
            i += 1
        elif w.startswith("--"):
            k, _, v = w.partition("=")
            opts[k] = v
        elif w.startswith("-"):
            raise Unknown(w)
        else:
            rest.append(w)
        i += 1
    return opts, rest


def matches(name, pattern):
    if pattern.endswith("*") and "*" not in pattern[:-1] and "?" not in pattern and "[" not in pattern:
        return name.startswith(pattern[:-1])
    if "*" in pattern or "?" in pattern or "[" in pattern:
        raise Unknown(pattern)
    return name == pattern


def shown(fmt, tag):
    out = ""
    while fmt:
        i = fmt.find("%(")
        if i < 0:
            return out + fmt
        out = out + fmt[:i]
        j = fmt.index(")", i)
        field = fmt[i + 2:j]
        fmt = fmt[j + 1:]
        name, _, how = field.partition(":")
        if name == "refname":
            if how in ("lstrip=2", "strip=2", "short", "lstrip=-1"):
                out = out + tag.name
            elif how == "":
                out = out + "refs/tags/" + tag.name
            else:
                raise Unknown(field)
        elif name in ("committerdate", "creatordate", "taggerdate", "authordate"):
            d = tag.date if name == "committerdate" else tag.other
            if how in ("short", "format:%Y-%m-%d"):
                out = out + d
            elif how in ("iso", "iso8601"):
                out = out + d + " 12:00:00 +0000"
            elif how in ("iso-strict", "iso8601-strict"):
                out = out + d + "T12:00:00+00:00"
            else:
                raise Unknown(field)
        else:
            raise Unknown(field)
    return out


def listing(words, tags):
    """What git tag or git for-each-ref prints; tags are given by commit date, newest first."""
    opts, rest = options(words[1:])
    pats = rest
    if words[0] == "for-each-ref":
        pats = [p[10:] for p in rest if p.startswith("refs/tags/")]
        if rest and not pats:
            return ""
    elif "--list" not in opts and rest:
        raise Unknown(words)
    if opts.get("--list"):
        pats = pats + [opts["--list"]]
    if [k for k in opts if k not in ("--list", "--sort", "--format")]:
        raise Unknown(words)
    order = opts.get("--sort", "refname")
    found = list(tags)
    if order != "-committerdate":
        found.reverse()
    fmt = opts.get("--format", "%(refname:short)")
    return "".join([shown(fmt, t) + "\n" for t in found if not pats or [p for p in pats if matches(t.name, p)]])


class Commands:
    """Replaces subprocess.run and its relatives, in the module itself and in the modules given."""
    NAMES = ["run", "call", "check_call", "check_output", "Popen"]

    def __init__(self, tags, modules, other=None):
        self.tags = tags
        self.modules = [subprocess] + modules
        self.other = other          # called with (argv, cwd, env) for all but listings
        self.saved = []

    def ask(self, cmd, kw):
        words = argv(cmd)
        if words[:1] == ["git"] and words[1:2] in (["tag"], ["for-each-ref"]):
            return listing(words[1:], self.tags)
        if self.other is None:
            raise Unknown(words)
        self.other(words, kw.get("cwd"), kw.get("env"))
        return ""

    def text(self, out, kw):
        if kw.get("encoding") or kw.get("text") or kw.get("universal_newlines"):
            return out
        return Raw(out)

    def run(self, cmd, **kw):
        out = self.ask(cmd, kw)
        return Done(cmd, self.text(out, kw) if kw.get("stdout") is not None or kw.get("capture_output") else None)

    def check_output(self, cmd, **kw):
        return self.text(self.ask(cmd, kw), kw)

    def call(self, cmd, **kw):
        self.ask(cmd, kw)
        return 0

    check_call = call

    def Popen(self, cmd, **kw):
        raise Unknown("Popen")

    def __enter__(self):
        for name in self.NAMES:
            real = getattr(subprocess, name)
            for m in self.modules:
                for k, v in list(vars(m).items()):
                    if v is real:
                        self.saved.append((m, k, v))
                        setattr(m, k, getattr(self, name))
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        return False
