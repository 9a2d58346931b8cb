"""Reference parser: the Fluent 1.0 EBNF plus its abstract constraints, written from the specification.

Entries are plain tuples.  Two documented choices of the tooling parser are followed: a
broken attribute line spoils the whole entry, and adjacent Junk is joined before comparing.
"""

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
IDCHARS = LETTERS + DIGITS + "_-"
FUNCCHARS = UPPER + DIGITS + "_-"
HEX = DIGITS + "abcdefABCDEF"


class Bad(Exception):
    """The text is not a well-formed entry."""


class Ref:
    def __init__(self, s):
        self.s = s
        self.n = len(s)

    # -- terminals
    def at(self, p, c):
        return p < self.n and self.s[p] == c

    def within(self, p, chars):
        return p < self.n and self.s[p] in chars

    def eol(self, p):
        """Length of the line break at p (0: none)."""
        if self.at(p, "\n"):
            return 1
        if self.at(p, "\r") and self.at(p + 1, "\n"):
            return 2
        return 0

    def line_end(self, p):
        if p >= self.n:
            return p
        k = self.eol(p)
        if not k:
            raise Bad()
        return p + k

    def blank_inline(self, p):
        while self.at(p, " "):
            p += 1
        return p

    def blank(self, p):
        while True:
            if self.at(p, " "):
                p += 1
                continue
            k = self.eol(p)
            if not k:
                return p
            p += k

    def blank_lines(self, p):
        """Skip whole blank lines from the start of a line: (position, how many)."""
        count = 0
        while True:
            q = self.blank_inline(p)
            k = self.eol(q)
            if k:
                p = q + k
                count += 1
                continue
            if q >= self.n:
                return q, count
            return p, count

    def identifier(self, p):
        if not self.within(p, LETTERS):
            raise Bad()
        q = p + 1
        while self.within(q, IDCHARS):
            q += 1
        return q, self.s[p:q]

    def number(self, p):
        q = p
        if self.at(q, "-"):
            q += 1
        q = self.digits(q)
        if self.at(q, "."):
            q = self.digits(q + 1)
        return q, ("Number", self.s[p:q])

    def digits(self, p):
        q = p
        while self.within(q, DIGITS):
            q += 1
        if q == p:
            raise Bad()
        return q

    def string(self, p):
        q = p + 1
        while True:
            if q >= self.n or self.eol(q):
                raise Bad()
            if self.at(q, '"'):
                return q + 1, ("String", self.s[p + 1:q])
            if self.at(q, "\\"):
                q += 1
                if self.at(q, "\\") or self.at(q, '"'):
                    q += 1
                elif self.at(q, "u"):
                    q = self.hexdigits(q + 1, 4)
                elif self.at(q, "U"):
                    q = self.hexdigits(q + 1, 6)
                else:
                    raise Bad()
            else:
                q += 1

    def hexdigits(self, p, count):
        for i in range(count):
            if not self.within(p + i, HEX):
                raise Bad()
        return p + count

    # -- expressions
    def inline_expression(self, p):
        if self.at(p, "{"):
            return self.placeable(p)
        if self.at(p, '"'):
            return self.string(p)
        if self.within(p, DIGITS):
            return self.number(p)
        if self.at(p, "-"):
            if self.within(p + 1, DIGITS):
                return self.number(p)
            p, name = self.identifier(p + 1)
            attr = None
            if self.at(p, "."):
                p, attr = self.identifier(p + 1)
            args = None
            q = self.blank(p)
            if self.at(q, "("):
                p, args = self.call_arguments(q)
            return p, ("TermRef", name, attr, args)
        if self.at(p, "$"):
            p, name = self.identifier(p + 1)
            return p, ("VarRef", name)
        p, name = self.identifier(p)
        q = self.blank(p)
        if self.at(q, "("):
            if not name[0] in UPPER:
                raise Bad()
            for c in name:
                if not c in FUNCCHARS:
                    raise Bad()
            p, args = self.call_arguments(q)
            return p, ("FuncRef", name, args)
        attr = None
        if self.at(p, "."):
            p, attr = self.identifier(p + 1)
        return p, ("MsgRef", name, attr)

    def call_arguments(self, p):
        p = self.blank(p + 1)
        positional = []
        named = []
        while not self.at(p, ")"):
            q, e = self.inline_expression(p)
            r = self.blank(q)
            if self.at(r, ":"):
                if e[0] != "MsgRef" or e[2] is not None:
                    raise Bad()
                name = e[1]
                r = self.blank(r + 1)
                if self.at(r, '"'):
                    p, value = self.string(r)
                else:
                    p, value = self.number(r)
                for other in named:
                    if other[1] == name:
                        raise Bad()
                named.append(("Named", name, value))
            else:
                if named:
                    raise Bad()
                positional.append(e)
                p = q
            p = self.blank(p)
            if self.at(p, ","):
                p = self.blank(p + 1)
            else:
                break
        if not self.at(p, ")"):
            raise Bad()
        return p + 1, ("Args", positional, named)

    def placeable(self, p):
        p = self.blank(p + 1)
        p, e = self.inline_expression(p)
        q = self.blank(p)
        if self.at(q, "-") and self.at(q + 1, ">"):
            kind = e[0]
            if kind == "MsgRef" or kind == "Placeable":
                raise Bad()
            if kind == "TermRef" and e[2] is None:
                raise Bad()
            p = self.blank_inline(q + 2)
            p, variants = self.variants(p)
            q = self.blank(p)
            e = ("Select", e, variants)
        elif e[0] == "TermRef" and e[2] is not None:
            raise Bad()
        if not self.at(q, "}"):
            raise Bad()
        return q + 1, ("Placeable", e)

    def variants(self, p):
        out = []
        defaults = 0
        while True:
            if p >= self.n:
                raise Bad()
            p = self.line_end(p)
            q = self.blank(p)
            default = True if self.at(q, "*") else False
            k = q + 1 if default else q
            if not self.at(k, "["):
                if default:
                    raise Bad()
                break
            if default:
                defaults += 1
            k = self.blank(k + 1)
            if self.within(k, DIGITS) or self.at(k, "-"):
                k, key = self.number(k)
            else:
                k, name = self.identifier(k)
                key = ("Ident", name)
            k = self.blank(k)
            if not self.at(k, "]"):
                raise Bad()
            k, value = self.pattern(k + 1)
            if value is None:
                raise Bad()
            out.append(("Variant", key, value, default))
            p = k
        if defaults != 1:
            raise Bad()
        return p, out

    # -- patterns
    def continuation(self, p):
        """At a line break: (start of line, its indent) when the pattern goes on, else None."""
        q, count = self.blank_lines(p + self.eol(p))
        r = self.blank_inline(q)
        if r >= self.n:
            return None
        if self.at(r, "{"):
            return q, r, count + 1
        if r == q or self.within(r, "}.[*"):
            return None
        return q, r, count + 1

    def pattern(self, p):
        """-> (end, elements or None)"""
        p0 = p
        p = self.blank_inline(p)
        raw = []
        indents = []
        if p >= self.n:
            return p0, None
        if self.eol(p):
            c = self.continuation(p)
            if c is None:
                return p0, None
            start, p, count = c
            indents.append(p - start)
            raw.append(("I", 0, p - start))
        end = p
        while p < self.n:
            if self.eol(p):
                c = self.continuation(p)
                if c is None:
                    break
                start, q, count = c
                indents.append(q - start)
                raw.append(("I", count, q - start))
                p = q
                continue
            if self.at(p, "}"):
                raise Bad()
            if self.at(p, "{"):
                p, e = self.placeable(p)
                raw.append(e)
            else:
                q = p
                while q < self.n and not self.within(q, "{}") and not self.eol(q):
                    q += 1
                raw.append(("T", self.s[p:q]))
                p = q
        common = min(indents) if indents else 0
        return p, self.dedent(raw, common)

    def dedent(self, raw, common):
        out = []
        for e in raw:
            if e[0] == "Placeable":
                out.append(e)
                continue
            if e[0] == "I":
                text = "\n" * e[1] + " " * (e[2] - common)
            else:
                text = e[1]
            if len(text) == 0:
                continue
            if out and out[-1][0] == "Text":
                out[-1] = ("Text", out[-1][1] + text)
            else:
                out.append(("Text", text))
        if out and out[-1][0] == "Text":
            text = out[-1][1].rstrip(" \n\r")
            if len(text) == 0:
                out.pop()
            else:
                out[-1] = ("Text", text)
        return out

    # -- entries
    def attributes(self, p):
        out = []
        while True:
            q = self.blank(p)
            if not self.at(q, "."):
                return p, out
            q, name = self.identifier(q + 1)
            q = self.blank_inline(q)
            if not self.at(q, "="):
                raise Bad()
            q, value = self.pattern(q + 1)
            if value is None:
                raise Bad()
            out.append(("Attribute", name, value))
            p = q

    def comment_line(self, p):
        """-> (end of the text, level, text)"""
        level = 0
        while level < 3 and self.at(p + level, "#"):
            level += 1
        p += level
        if p >= self.n or self.eol(p):
            return p, level, ""
        if not self.at(p, " "):
            raise Bad()
        q = p + 1
        while q < self.n and not self.eol(q):
            q += 1
        return q, level, self.s[p + 1:q]

    def comment(self, p):
        p, level, text = self.comment_line(p)
        while p < self.n:
            q = p + self.eol(p)
            if not self.at(q, "#"):
                break
            try:
                q, level2, text2 = self.comment_line(q)
            except Bad:
                break
            if level2 != level:
                break
            text = text + "\n" + text2
            p = q
        return p, (("", "Comment", "GroupComment", "ResourceComment")[level], text)

    def entry(self, p):
        if self.at(p, "#"):
            return self.comment(p)
        if self.at(p, "-"):
            q, name = self.identifier(p + 1)
            kind = "Term"
        else:
            q, name = self.identifier(p)
            kind = "Message"
        q = self.blank_inline(q)
        if not self.at(q, "="):
            raise Bad()
        q, value = self.pattern(q + 1)
        if value is None and kind == "Term":
            raise Bad()
        q, attrs = self.attributes(q)
        if value is None and not attrs:
            raise Bad()
        return q, (kind, name, value, attrs, None)

    def junk(self, p):
        while True:
            while p < self.n and not self.eol(p):
                p += 1
            p += self.eol(p)
            if p >= self.n or self.within(p, LETTERS + "#-"):
                return p

    def resource(self):
        out = []
        p, _ = self.blank_lines(0)
        stash = None
        while p < self.n:
            start = p
            try:
                q, entry = self.entry(p)
                q = self.line_end(q)
            except Bad:
                q = self.junk(p)
                entry = ("Junk", self.s[p:q])
            p, blanks = self.blank_lines(q)
            if entry[0] == "Junk" and blanks:
                pass
            if stash is not None:
                if entry[0] in ("Message", "Term"):
                    entry = entry[:4] + (stash[1],)
                else:
                    out.append(stash)
                stash = None
            if entry[0] == "Comment" and not blanks and p < self.n:
                stash = entry
                continue
            if entry[0] == "Junk" and out and out[-1][0] == "Junk":
                out[-1] = ("Junk", out[-1][1] + entry[1])
            else:
                out.append(entry)
        return out


def parse(s):
    return Ref(s).resource()


# ---------------------------------------------------------------- the implementation's tree in the same form
def dump_pattern(p):
    if p is None:
        return None
    out = []
    for e in p.elements:
        if type(e).__name__ == "TextElement":
            out.append(("Text", e.value))
        else:
            out.append(dump_expr(e))
    return out


def dump_expr(e):
    k = type(e).__name__
    if k == "Placeable":
        return ("Placeable", dump_expr(e.expression))
    if k == "StringLiteral":
        return ("String", e.value)
    if k == "NumberLiteral":
        return ("Number", e.value)
    if k == "VariableReference":
        return ("VarRef", e.id.name)
    if k == "MessageReference":
        return ("MsgRef", e.id.name, e.attribute.name if e.attribute is not None else None)
    if k == "TermReference":
        return ("TermRef", e.id.name, e.attribute.name if e.attribute is not None else None,
                dump_args(e.arguments))
    if k == "FunctionReference":
        return ("FuncRef", e.id.name, dump_args(e.arguments))
    if k == "SelectExpression":
        return ("Select", dump_expr(e.selector), [dump_variant(v) for v in e.variants])
    raise ValueError("unexpected node " + k)


def dump_args(a):
    if a is None:
        return None
    return ("Args", [dump_expr(x) for x in a.positional],
            [("Named", x.name.name, dump_expr(x.value)) for x in a.named])


def dump_variant(v):
    key = ("Ident", v.key.name) if type(v.key).__name__ == "Identifier" else dump_expr(v.key)
    return ("Variant", key, dump_pattern(v.value), v.default)


def dump_entry(e):
    k = type(e).__name__
    if k in ("Message", "Term"):
        return (k, e.id.name, dump_pattern(e.value),
                [("Attribute", a.id.name, dump_pattern(a.value)) for a in e.attributes],
                e.comment.content if e.comment is not None else None)
    return (k, e.content)


def dump(body):
    out = []
    for e in body:
        d = dump_entry(e)
        if d[0] == "Junk" and out and out[-1][0] == "Junk":
            out[-1] = ("Junk", out[-1][1] + d[1])
        else:
            out.append(d)
    return out


def compare(E, a, b, path):
    """Assert that two dumped trees are the same, leaf by leaf."""
    if isinstance(a, (tuple, list)):
        E.check(isinstance(b, (tuple, list)) and len(a) == len(b), "different shape at " + path)
        for i in range(len(a)):
            compare(E, a[i], b[i], path + "/" + (a[0] if i and isinstance(a, tuple) and isinstance(a[0], str)
                                                 and a[0].isascii() and len(a[0]) < 20 else str(i)))
        return
    if a is None or b is None or isinstance(a, bool):
        E.check(a is b, "different value at " + path)
        return
    E.check(a == b, "different text at " + path)
