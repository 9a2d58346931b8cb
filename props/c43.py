"""C43 a parser stream is a cursor over characters in which CRLF is one line break."""
from fluent.syntax.stream import FluentParserStream, ParserStream

ID = "C43"
EXPECT = ["crlf", "end"]
BOUNDS = ("every text of up to 5 (thorough 6) arbitrary code points; every sequence of 4 (thorough 5) operations out of next, "
          "peek, reset_peek, reset_peek to an earlier place and skip_to_peek")
BASIC = ["next", "peek", "reset", "back", "skip"]


def jobs(tier):
    q = tier == "quick"
    out = []
    for k in range(6 if q else 7):
        for a in BASIC:
            out.append({"name": "%d:%s" % (k, a), "n": k, "first": a, "steps": 4 if q else 5})
    return out


class Model:
    """The characters of a text, CRLF as one, and where the cursor and the peek are."""

    def __init__(self, E, s):
        self.chars, self.starts = [], []
        p = 0
        while p < len(s):
            self.starts.append(p)
            if s[p] == "\r" and p + 1 < len(s) and s[p + 1] == "\n":
                self.chars.append("\n")
                E.tag("crlf")
                p += 2
            else:
                self.chars.append(s[p])
                p += 1
        self.end = p
        self.at = self.peek = 0

    def char(self, u):
        return self.chars[u] if u < len(self.chars) else None

    def pos(self, u):
        if u < len(self.starts):
            return self.starts[u]
        return self.end + u - len(self.starts)


def run(E, inp, job):
    s = inp.text("source", [job["n"]])
    ps = [ParserStream, FluentParserStream][inp.choice("class", [0, 1])](s)
    m = Model(E, s)
    saved = (0, 0)
    for step in range(job["steps"]):
        op = job["first"] if step == 0 else inp.choice("op%d" % step, BASIC)
        if op == "next":
            m.at += 1
            m.peek = m.at
            ps.next()
        elif op == "peek":
            m.peek += 1
            if step % 2 == 0:
                saved = (m.at, m.peek)
            ps.peek()
        elif op == "reset":
            m.peek = m.at
            ps.reset_peek()
        elif op == "back":
            if saved[0] != m.at:
                saved = (m.at, m.at)
            m.peek = saved[1]
            ps.reset_peek(m.pos(m.peek) - m.pos(m.at))
        elif op == "skip":
            m.at = m.peek
            ps.skip_to_peek()
        c, p = m.char(m.at), m.char(m.peek)
        if c is None:
            E.tag("end")
            E.check(ps.current_char is None, "a character is seen after the end")
        else:
            E.check(ps.current_char == c, "another character is at the cursor")
            E.check(ps.index == m.pos(m.at), "the cursor is elsewhere")
        if p is None:
            E.check(ps.current_peek is None, "a character is peeked at after the end")
        else:
            E.check(ps.current_peek == p, "another character is peeked at")
            E.check(ps.index + ps.peek_offset == m.pos(m.peek), "the peek is elsewhere")
        E.observe((ps.index, ps.peek_offset))
