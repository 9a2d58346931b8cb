"""Reference evaluator: what formatting a message means, over dumped entries (see grammar.dump).

Values are ("str", text), ("num", num, scale, options), ("none", shown) or ("other",).
"""
from spec import decimals, plurals


class TooMuch(Exception):
    """An expansion limit was hit: the whole pattern is abandoned."""


class Unspecified(Exception):
    """The reference says nothing about this input."""


NUMBER_OPTIONS = ("style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits",
                  "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits",
                  "maximumSignificantDigits")
DIGIT_OPTIONS = NUMBER_OPTIONS[5:]


def literal_text(d):
    """The text of a placeable that holds nothing but a string literal, else None."""
    while d[0] == "Placeable":
        d = d[1]
    return d if d[0] == "String" else None


def unescape(raw):
    if "\\" in raw:
        raise Unspecified()
    return raw


def number(text):
    """("num", ...) of a number literal."""
    dot = text.find(".")
    if dot < 0:
        return ("num", int(text), 0, {})
    n = int(text[:dot] + text[dot + 1:])
    if n == 0 and text[0] == "-":
        raise Unspecified()
    return ("num", n, len(text) - dot - 1, {})


class Bundle:
    def __init__(self, locale="en-US", functions=None, isolating=False):
        self.locale = locale
        self.isolating = isolating
        self.functions = functions or {}
        self.max_parts = 1000       # parts of a pattern and the patterns it has shown before
        self.max_length = 2500      # characters of one placeable
        self.messages = {}
        self.terms = {}

    def add(self, dump, override=False):
        for e in dump:
            if e[0] not in ("Message", "Term"):
                continue
            into = self.messages if e[0] == "Message" else self.terms
            if e[1] not in into or override:
                attrs = {}
                for a in e[3]:
                    attrs[a[1]] = a[2]
                into[e[1]] = (e[2], attrs)

    def format(self, pattern, args):
        """-> (text, errors) with args a dict of reference values."""
        run = Run(self)
        try:
            text = run.show(run.pattern(pattern, args, True))
        except TooMuch:
            return "{???}", run.errors
        return text, run.errors


class Run:
    def __init__(self, bundle):
        self.b = bundle
        self.errors = []
        self.active = []
        self.parts = 0

    def error(self, kind, text=None):
        self.errors.append((kind, text))

    def show(self, v):
        if v[0] == "str":
            return v[1]
        if v[0] == "none":
            return v[1] if v[1] is not None and v[1] != "" else "???"
        if v[0] == "num":
            return self.render(v)
        raise Unspecified()

    def render(self, v):
        opts = v[3]
        for k in opts:
            if k in DIGIT_OPTIONS:
                if isinstance(opts[k], str):
                    self.error("TypeError")
                    return "???"
                if not (opts[k] >= 0 and opts[k] <= 9):
                    raise Unspecified()
        if opts.get("style") == "currency":
            raise Unspecified()
        if abs(v[1]) * 10 < 10 ** v[2] and ("minimumSignificantDigits" in opts or "maximumSignificantDigits" in opts):
            raise Unspecified()         # babel is wrong below 0.1
        if self.b.locale != "en-US":
            raise Unspecified()
        return decimals.render(v[1], v[2], opts)

    # ---------------------------------------------------------------- patterns
    def pattern(self, p, args, strict):
        literal = True
        for d in p:
            if d[0] != "Text" and literal_text(d) is None:
                literal = False
        if not literal:
            for q in self.active:
                if q is p:
                    self.error("FluentCyclicReferenceError")
                    return ("none", None)
            self.active.append(p)
        alone = len(p) == 1
        counted = not literal and not alone
        if counted and len(p) > self.b.max_parts - self.parts:
            self.error("ValueError")
            raise TooMuch()
        out = ""
        for d in p:
            if d[0] == "Text":
                if not literal and len(d[1]) > self.b.max_length:
                    raise Unspecified()
                out = out + d[1]
                continue
            s = literal_text(d)
            if s is not None:
                out = out + unescape(s[1])
                continue
            text = self.placed(d[1], args, strict)
            if self.b.isolating and not alone:
                text = "\u2068" + text + "\u2069"
            out = out + text
        if counted:
            self.parts += len(p)
        if not literal:
            self.active.pop()
        return ("str", out)

    def placed(self, d, args, strict):
        v = self.expr(d, args, strict)
        text = self.show(v)
        if v[0] != "str":
            return text             # the limit is on text, numbers are what they are
        if len(text) > self.b.max_length:
            self.error("ValueError")
            raise TooMuch()
        if self.b.isolating and len(text) + 2 > self.b.max_length:
            raise Unspecified()
        return text

    # ---------------------------------------------------------------- expressions
    def expr(self, d, args, strict):
        k = d[0]
        if k == "String":
            return ("str", unescape(d[1]))
        if k == "Number":
            return number(d[1])
        if k == "Placeable":
            s = literal_text(d)
            if s is not None:
                return ("str", unescape(s[1]))
            text = self.placed(d[1], args, strict)
            return ("str", "\u2068" + text + "\u2069" if self.b.isolating else text)
        if k == "VarRef":
            if d[1] in args:
                v = args[d[1]]
                if v[0] == "other":
                    self.error("TypeError")
                    return ("none", d[1])
                return v
            if strict:
                self.error("FluentReferenceError", "Unknown external: " + d[1])
            return ("none", d[1])
        if k == "MsgRef":
            return self.entry(self.b.messages, "message", d[1], d[1], d[2], args, strict)
        if k == "TermRef":
            own = {}
            if d[3] is not None:
                if d[3][1]:
                    self.error("FluentFormatError")
                for _, name, value in d[3][2]:
                    own[name] = self.expr(value, args, strict)
            return self.entry(self.b.terms, "term", "-" + d[1], d[1], d[2], own, False)
        if k == "FuncRef":
            return self.function(d, args, strict)
        if k == "Select":
            return self.select(d, args, strict)
        raise Unspecified()

    def entry(self, table, kind, shown, name, attr, args, strict):
        full = shown if attr is None else shown + "." + attr
        if name not in table:
            self.error("FluentReferenceError", "Unknown " + (kind if attr is None else "attribute") + ": " + full)
            return ("none", "{" + full + "}")
        value, attrs = table[name]
        if attr is not None:
            if attr not in attrs:
                self.error("FluentReferenceError", "Unknown attribute: " + full)
                return ("none", "{" + full + "}")
            value = attrs[attr]
        if value is None:
            self.error("FluentReferenceError", "No pattern: " + full)
            return ("none", full)
        return self.pattern(value, args, strict)

    def select(self, d, args, strict):
        key = self.expr(d[1], args, strict)
        chosen = None
        for v in d[2]:
            if self.matches(key, v[1]):
                chosen = v
                break
        if chosen is None:
            for v in d[2]:
                if v[3]:
                    chosen = v
        return self.pattern(chosen[2], args, strict)

    def matches(self, key, vkey):
        if vkey[0] == "Number":
            n = number(vkey[1])
            if key[0] != "num":
                return False
            return True if key[1] * 10 ** n[2] == n[1] * 10 ** key[2] else False
        if key[0] == "str":
            return True if key[1] == vkey[1] else False
        if key[0] == "num":
            ordinal = key[3].get("type") == "ordinal"
            return True if plurals.category(self.b.locale, ordinal, key[1], key[2]) == vkey[1] else False
        return False

    def function(self, d, args, strict):
        pos = [self.expr(x, args, strict) for x in d[2][1]]
        named = {}
        for _, name, value in d[2][2]:
            named[name] = self.expr(value, args, strict)
        name = d[1]
        if name in self.b.functions:
            r = self.b.functions[name](pos, named)
            if r is None:
                self.error(None)
                return ("none", name + "()")
            return r
        if name == "NUMBER":
            return self.numberfn(pos, named)
        if name == "DATETIME":
            if len(pos) == 1 and pos[0][0] == "none" and "dt" not in named:
                return pos[0]
            if len(pos) != 1 or pos[0][0] in ("str", "num"):
                self.error("TypeError")
                return ("none", "DATETIME()")
            raise Unspecified()
        self.error("FluentReferenceError", "Unknown function: " + name)
        return ("none", name + "()")

    def numberfn(self, pos, named):
        if len(pos) != 1 or "number" in named or pos[0][0] == "str":
            self.error("TypeError")
            return ("none", "NUMBER()")
        v = pos[0]
        if v[0] == "none":
            return v
        merged = dict(v[3])
        for k in named:
            if k not in NUMBER_OPTIONS:
                self.error("TypeError")
                return ("none", "NUMBER()")
        bad = False
        for k in named:
            x = named[k]
            ok = {"style": ("decimal", "currency", "percent"), "type": ("ordinal", "cardinal"),
                  "currencyDisplay": ("symbol", "code", "name")}.get(k)
            if ok is not None and (x[0] != "str" or x[1] not in ok):
                bad = True
            merged[k] = x[1] if x[0] == "str" else self.whole(x)
        if bad or (merged.get("style") == "currency" and merged.get("currency") is None):
            self.error("ValueError")
            return ("none", "NUMBER()")
        return ("num", v[1], v[2], merged)

    def whole(self, x):
        if x[2]:
            raise Unspecified()
        return x[1]
