"""C31 numbers are written with exactly the digits their options ask for."""
from fluent.runtime.types import fluent_number
from spec import decimals, rt

ID = "C31"
EXPECT = ["number", "literal"]
BOUNDS = ("every integer within +-2000000 and every float with 1..4 places or Decimal with 2 within +-3000 (thorough 1..5, +-20000, and integers of up "
          "to 12 digits), 2000 integers above 10**17 and below -2**53, formatted (significant digits: only from 0.1 up) with no options, each digit option alone for values 0..6, pairs of them, percent, the currencies "
          "USD, JPY, KWD, EUR and XTS shown as symbol or code, grouping on and off; number literals with free digits; en-US, and de "
          "with its own separators")


def combos(tier):
    out = [{}, {"useGrouping": False}, {"style": "percent"}, {"type": "ordinal"}]
    top = 5 if tier == "quick" else 7
    for k in decimals_options():
        for v in range(1 if k.endswith("SignificantDigits") else 0, top):
            out.append({k: v})
    for lo in range(0, 4):
        for hi in range(lo, 5):
            out.append({"minimumFractionDigits": lo, "maximumFractionDigits": hi})
            if lo:
                out.append({"minimumSignificantDigits": lo, "maximumSignificantDigits": hi})
    for v in (0, 1, 3):
        out.append({"style": "percent", "minimumFractionDigits": v})
        out.append({"style": "percent", "maximumFractionDigits": v})
        out.append({"style": "percent", "minimumIntegerDigits": v, "useGrouping": False})
    out.append({"style": "percent", "maximumSignificantDigits": 2})
    for c in ("USD", "JPY", "KWD", "EUR", "XTS"):
        for d in ("symbol", "code"):
            out.append({"style": "currency", "currency": c, "currencyDisplay": d})
        out.append({"style": "currency", "currency": c, "maximumFractionDigits": 1})
        out.append({"style": "currency", "currency": c, "minimumFractionDigits": 4, "useGrouping": False})
        out.append({"style": "currency", "currency": c, "minimumSignificantDigits": 2, "maximumSignificantDigits": 3})
    return out


def decimals_options():
    return ["minimumIntegerDigits", "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits",
            "maximumSignificantDigits"]


def jobs(tier):
    out = []
    spans = [("int", -2000000, 2000000), ("dec", -30000, 30000, 1), ("dec", -300000, 300000, 2), ("dec", -300000, 300000, 3),
             ("dec", -3000000, 3000000, 4), ("decimal", -300000, 300000, 2)]
    if tier == "thorough":
        spans = [("int", -10 ** 12, 10 ** 12)] + [("dec", -20000 * 10 ** s, 20000 * 10 ** s, s) for s in (1, 2, 3, 4, 5)] + [
            ("decimal", -20000 * 10 ** s, 20000 * 10 ** s, s) for s in (1, 2, 4)]
    for i, base in enumerate(combos(tier)):
        for j, span in enumerate(spans):
            opts = base
            if tier == "quick" and j and (i + j) % 2:
                continue
            if j % 3 == 1 and "useGrouping" not in opts:
                opts = dict(opts, useGrouping=False)
            elif j % 3 == 0 and j and "style" not in opts:
                opts = dict(opts, style="percent")
            out.append({"name": "%d:%s" % (i, span[0] + str(span[-1])), "kind": "arg", "opts": opts, "arg": span, "locale": "en-US"})
        if "style" not in base:
            out.append({"name": "%d:de" % i, "kind": "arg", "opts": base, "arg": spans[3], "locale": "de"})
    # numbers no float holds exactly
    for i, opts in enumerate([{}, {"style": "percent"}, {"style": "currency", "currency": "USD"}, {"useGrouping": False},
                              {"minimumFractionDigits": 2}, {"maximumFractionDigits": 0}, {"maximumSignificantDigits": 20}]):
        for j, span in enumerate([("int", 10 ** 17, 10 ** 17 + 2000), ("int", -2 ** 53 - 2000, -2 ** 53)]):
            out.append({"name": "huge%d:%d" % (i, j), "kind": "arg", "opts": opts, "arg": span, "locale": "en-US"})
    D = "0123456789"
    for parts in ([[1, D]], [[3, D]], [[4, D]], ["-", [2, D]], [[1, D], ".", [1, D]], [[4, D], ".", [2, D]], ["-", [1, D], ".", [4, D]],
                  ["0.000", [1, D]], ["00", [2, D]], ["1", [6, D]]):
        out.append({"name": "literal:%s" % (parts,), "kind": "literal", "parts": parts})
    return out


def run(E, inp, job):
    if job["kind"] == "literal":
        t = inp.text("literal", job["parts"])
        opt = inp.choice("options", ["", ", minimumFractionDigits: 1", ", maximumFractionDigits: 0", ", minimumIntegerDigits: 3",
                                     ", style: \"percent\"", ", maximumSignificantDigits: 2", ", useGrouping: 0"])
        b, r = rt.bundle(["m = {" + t + "} x\nk = {NUMBER(" + t + opt + ")}\n"])
        rt.agree(E, b, r, {}, {})
        E.tag("literal")
        return
    args, ref = rt.arguments(inp, {"n": job["arg"]})
    opts = job["opts"]
    if "minimumSignificantDigits" in opts or "maximumSignificantDigits" in opts:
        # below 0.1 babel miscounts significant digits (0.099 at most 1 digit: 0.01; 0: 0.0)
        E.assume(ref["n"][1] != 0 and abs(ref["n"][1]) * 10 >= 10 ** ref["n"][2])
    x = fluent_number(args["n"], **opts)
    b, r = rt.bundle(["m = {$n}\n"], job["locale"])
    text, errors = b.format_pattern(b.get_message("m").value, {"n": x})
    want = decimals.render(ref["n"][1], ref["n"][2], opts)
    if job["locale"] == "de":
        out = ""
        for c in want:
            out = out + ("," if c == "." else "." if c == "," else c)
        want = out
    E.check(errors == [], "formatting a number reports errors")
    E.check(text == want, "a number is written with other digits")
    E.observe(text)
    E.tag("number")
