"""Files with symbolic text, and printed output, as the code under test sees them."""
import builtins
import codecs
import io
import os
import pathlib
import posixpath
import sys
from . import ops, core
from .vals import SymStr, HasSym, concrete, cin, items_of, mk
from .core import charset

FILES = {}            # absolute path -> text (decoded UTF-8)
ROOT = "/vfs"
OUT = None


def reset():
    global OUT
    FILES.clear()
    OUT = None


def norm(p):
    if hasattr(p, "__fspath__"):
        p = p.__fspath__()
    return posixpath.normpath(p)


def mine(p):
    if not isinstance(p, (str, SymStr)) and not hasattr(p, "__fspath__"):
        return False
    return FILES and norm(concrete(p)).startswith(ROOT)


def isfile(p):
    return norm(concrete(p)) in FILES if mine(p) else _isfile(p)


def isdir(p):
    if not mine(p):
        return _isdir(p)
    q = norm(concrete(p)) + "/"
    return any(f.startswith(q) for f in FILES)


def exists(p):
    return isfile(p) or isdir(p) if mine(p) else _exists(p)


def decoded(text, encoding, errors):
    name = codecs.lookup(encoding or "utf-8").name
    if name == "utf-8":
        return text
    if name == "utf-8-sig":
        if len(text) and bool(text[0] == "\ufeff"):
            return text[1:]
        return text
    ascii_ = all(isinstance(x, str) and x.isascii() or not isinstance(x, str) and core.CUR.branch(cin(x, ((0, 127),)))
                 for x in items_of(text)) if name in ("ascii", "iso8859-1", "cp1252") else False
    if ascii_:
        return text
    return concrete(text).encode("utf-8").decode(encoding, errors or "strict")


class Bytes:
    """The bytes of a file."""

    def __init__(self, text):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        return decoded(self.text, encoding, errors)


class File:
    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if isinstance(self.text, Bytes) or type(self.text).__name__ == "JText":
            return self.text
        t = self.text[self.pos:] if n is None or n < 0 else self.text[self.pos:self.pos + n]
        self.pos += len(t)
        return t

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def text_of(p):
    p = norm(concrete(p))
    if p not in FILES:
        raise FileNotFoundError(2, "No such file or directory", p)
    return FILES[p]


def codecs_open(filename, mode="r", encoding=None, errors="strict", buffering=-1):
    if not mine(filename):
        return _copen(filename, mode, encoding, errors, buffering)
    if "w" in mode or "a" in mode:
        raise core.Truncated("writing a file")
    t = text_of(filename)
    return File(Bytes(t)) if encoding is None and "b" in mode else newlines(File(decoded(t, encoding, errors)), encoding is None)


def newlines(f, translate):
    if translate and type(f.text).__name__ != "JText":
        f.text = ops.call(ops.call(f.text.replace, "\r\n", "\n").replace, "\r", "\n")
    return f


def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if not mine(file):
        return _open(file, mode, buffering, encoding, errors, newline, *a, **k)
    if "w" in mode or "a" in mode or "x" in mode:
        raise core.Truncated("writing a file")
    t = text_of(file)
    if "b" in mode:
        return File(Bytes(t))
    return newlines(File(decoded(t, encoding, errors)), newline is None)


class Out:
    """Standard output while it is being recorded."""
    encoding = "utf-8"

    def write(self, s):
        OUT.append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            OUT.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def path_read_text(self, encoding=None, errors=None, *a):
    if not mine(self):
        return _path_read_text(self, encoding, errors, *a)
    return open_(str(self), "r", -1, encoding, errors).read()


def path_read_bytes(self):
    return open_(str(self), "rb").read() if mine(self) else _path_read_bytes(self)


def path_open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return open_(str(self) if mine(self) else self, mode, buffering, encoding, errors, newline)


def print_(*a, sep=" ", end="\n", file=None, flush=False):
    if OUT is None or file is not None and not isinstance(file, Out):
        return print(*[str(x) for x in a], sep=sep, end=end, file=file)
    first = True
    for x in a:
        if not first:
            OUT.append(sep)
        first = False
        OUT.append(x if type(x).__name__ == "JText" else ops.call(str, x))
    OUT.append(end)


_isfile, _isdir, _exists, _copen, _open = os.path.isfile, os.path.isdir, os.path.exists, codecs.open, builtins.open
ops.FOREIGN_MODEL[_isfile] = isfile
ops.FOREIGN_MODEL[_isdir] = isdir
ops.FOREIGN_MODEL[_exists] = exists
ops.FOREIGN_MODEL[_copen] = codecs_open
ops.MODEL[_isfile], ops.MODEL[_isdir], ops.MODEL[_exists] = isfile, isdir, exists
ops.MODEL[_open] = open_
ops.MODEL[builtins.print] = print_
_path_read_text, _path_read_bytes = pathlib.Path.read_text, pathlib.Path.read_bytes
_path_is_file, _path_is_dir, _path_exists = pathlib.Path.is_file, pathlib.Path.is_dir, pathlib.Path.exists
ops.FOREIGN_MODEL[_path_read_text] = path_read_text
ops.FOREIGN_MODEL[_path_read_bytes] = path_read_bytes
ops.FOREIGN_MODEL[pathlib.Path.open] = path_open
ops.FOREIGN_MODEL[_path_is_file] = lambda self: isfile(str(self)) if mine(self) else _path_is_file(self)
ops.FOREIGN_MODEL[_path_is_dir] = lambda self: isdir(str(self)) if mine(self) else _path_is_dir(self)
ops.FOREIGN_MODEL[_path_exists] = lambda self: exists(str(self)) if mine(self) else _path_exists(self)
