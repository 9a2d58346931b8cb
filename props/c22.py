"""C22 select expressions pick the first matching variant, plural categories following CLDR."""
from decimal import Decimal
from fluent.runtime.types import fluent_number
from spec import plurals, rt

ID = "C22"
EXPECT = ["clean", "errors", "one", "other", "zero", "two", "few", "many"]
CATS = ["zero", "one", "two", "few", "many", "other"]
BOUNDS = ("cardinal categories in en-US, de, ar, pl, cs, ru, lv, ja and ordinal ones in en-US, pl, ja, cs, ru for every "
          "integer in -40..1240 (thorough -40..100140) and every float with 1..3 decimals or Decimal with 1..2 up to 13 (thorough 130), for lv only those of 0.1 and more; number "
          "keys with 1..2 arbitrary characters against integers and fractions; string selectors of up to 3 arbitrary "
          "characters, and ones of up to 5001, against identifier and number keys; every order of 3 of 7 variants, 40 orders of 10; Decimal, missing, unsupported "
          "and function-valued selectors")


def jobs(tier):
    out = []
    top = 1240 if tier == "quick" else 100140
    for ordinal, table in ((False, plurals.CARDINAL), (True, plurals.ORDINAL)):
        for locale in table:
            out.append({"name": "int:%s:%s" % (locale, ordinal), "kind": "cat", "locale": locale, "ordinal": ordinal,
                        "arg": ("int", -40, top)})
            for scale in (1, 2, 3):
                hi = 13 * 10 ** scale if tier == "quick" else 130 * 10 ** scale
                out.append({"name": "dec%d:%s:%s" % (scale, locale, ordinal), "kind": "cat", "locale": locale,
                            "ordinal": ordinal, "arg": ("dec", -2 * 10 ** scale, hi, scale)})
                if scale < 3 or tier == "thorough":
                    out.append({"name": "decimal%d:%s:%s" % (scale, locale, ordinal), "kind": "cat", "locale": locale,
                                "ordinal": ordinal, "arg": ("decimal", -2 * 10 ** scale, hi, scale)})
    NUM = "0123456789.- "
    keys = [["12", "1"], [[1, NUM], "2"], ["0", [1, NUM]], ["1", [2, NUM]], [[2, NUM]], ["-", [1, NUM], "5"],
            ["1.", [2, NUM]]]
    if tier == "thorough":
        keys += [[3], [[3, NUM]], ["1.", [3, NUM]]]
    for i, k in enumerate(keys):
        for arg in (("int", -30, 130), ("dec", -300, 1300, 1), ("dec", -20, 1300, 2), ("decimal", -20, 1300, 2)):
            out.append({"name": "key%d:%s%s" % (i, arg[0], arg[-1]), "kind": "agree", "args": {"v": arg},
                        "parts": ["m = {$v ->\n [0.5] h\n ["] + k + ["] y\n *[one] d\n}\n"]})
    for i, (k, arg) in enumerate([("1", ("dec", 9999990, 10000010, 7)), ("0.1", ("dec", 9999999990, 10000000010, 11)),
                                  ("100", ("dec", 9999999990, 10000000010, 8)), ("-2.5", ("decimal", -250000010, -249999990, 8))]):
        out.append({"name": "near%d" % i, "kind": "agree", "args": {"v": arg},
                    "parts": ["m = {$v ->\n [" + k + "] y\n [0", [1, "0123456789."], "0] z\n *[x] d\n}\n"]})
    for i, k in enumerate([["a", 2], [1, "b"], ["1", 1], ["one"], [2]]):
        out.append({"name": "str%d" % i, "kind": "agree", "args": {"v": ("str", [[0, 1, 2, 3, 3][i]])},
                    "parts": ["m = {$v ->\n [1] n\n ["] + k + ["] y\n *[one] d\n}\n"]})
        out.append({"name": "str1%d" % i, "kind": "agree", "args": {"v": ("str", [2])},
                    "parts": ["m = {$v ->\n ["] + k + ["] y\n *[other] d\n [x] t\n}\n"]})
    for text in ("9" * 25, "9" * 5000, "-" + "1" * 30, "1" + "0" * 400 + ".", "a" * 300):
        out.append({"name": "long:%s%d" % (text[:2], len(text)), "kind": "agree", "args": {"v": ("str", [text, [1, "0129.e-a "]])},
                    "parts": ["m = {$v ->\n [1] n\n [1" + "0" * 400 + ".0] l\n [" + "a" * 301 + "] y\n *[one] d\n}\n"]})
    out.append({"name": "one", "kind": "agree", "args": {"v": ("str", [3])},
                "parts": ["m = {$v ->\n [1] n\n [1.0] n\n [one] y\n *[other] d\n}\n"]})
    for k in ("order", "many", "decimal", "options"):
        out.append({"name": k, "kind": k, "locale": "pl"})
    for sel in ("$v", "$none", "F()", "-t.a", "-t.b", "\"a\"", "1", "NUMBER($v, type: \"ordinal\")", "NUMBER($none)",
                "NUMBER(\"a\")", "-t.a(x: 1)", "G()"):
        for arg in (("int", 0, 130), ("list",), ("str", [1])):
            out.append({"name": "sel:%s:%s" % (sel, arg[0]), "kind": "agree", "args": {"v": arg},
                        "parts": ["m = {" + sel + " ->\n [1] n\n [a] s\n [two] {$v}\n *[one] d\n}\n-t = x\n .a = a\n"]})
    return out


def boom(*a, **k):
    raise ValueError("no")


def two(*a, **k):
    return fluent_number(2)


def refboom(pos, named):
    return None


def reftwo(pos, named):
    return ("num", 2, 0, {})


def run(E, inp, job):
    kind = job["kind"]
    if kind == "cat":
        default = inp.choice("default", range(6))
        lines = ""
        for i in range(6):
            lines = lines + " " + ("*" if i == default else "") + "[" + CATS[i] + "] " + CATS[i] + "\n"
        sel = "NUMBER($n, type: \"ordinal\")" if job["ordinal"] else "$n"
        args, ref = rt.arguments(inp, {"n": job["arg"]})
        if job["locale"] == "lv" and ref["n"][2] > 0:
            # babel miscounts the decimals of fractions below 0.1, to which only lv is sensitive
            E.assume(ref["n"][1] == 0 or abs(ref["n"][1]) * 10 >= 10 ** ref["n"][2])
        if job["arg"][0] == "decimal":
            E.assume(ref["n"][1] % 10 != 0)     # the zeros a Decimal ends in are not shown by default, but count
        b, r = rt.bundle(["m = {" + sel + " ->\n" + lines + "}\n"], job["locale"])
        text, errors = b.format_pattern(b.get_message("m").value, args)
        want = plurals.category(job["locale"], job["ordinal"], ref["n"][1], ref["n"][2])
        E.check(text == want, "another plural category")
        E.check(errors == [], "selecting reports errors")
        E.tag(want)
        E.observe(text)
        return
    if kind == "many":
        variants = ["[0] a", "[1] b", "[one] c", "[other] d", "[1.0] e", "[two] f", "[2] g", "[few] h", "[3] i", "[1] j"]
        start, step, default = inp.choice("start", range(10)), inp.choice("step", [1, 3, 7, 9]), inp.choice("default", range(10))
        lines = ""
        for i in range(10):
            lines = lines + " " + ("*" if i == default else "") + variants[(start + i * step) % 10] + "\n"
        args, ref = rt.arguments(inp, {"n": ("int", 0, 12)})
        b, r = rt.bundle(["m = {$n ->\n" + lines + "}\n"], job["locale"])
        rt.agree(E, b, r, args, ref)
        return
    if kind == "order":
        variants = ["[0] a", "[1] b", "[one] c", "[other] d", "[1.0] e", "[two] f", "[0.5] g"]
        lines = ""
        for i in range(3):
            k = inp.choice("v%d" % i, range(7))
            lines = lines + " " + ("*" if i == 1 else "") + variants[k] + "\n"
        args, ref = rt.arguments(inp, {"n": inp.choice("kind", [("int", -2, 3), ("dec", -2, 20, 1)])})
        b, r = rt.bundle(["m = {$n ->\n" + lines + "}\n"])
        rt.agree(E, b, r, args, ref)
        return
    b, r = rt.bundle([inp.text("source", job["parts"]) if kind == "agree" else
                      "m = {$v ->\n [1] a\n [2.50] b\n [one] c\n [few] d\n *[x] e\n}\n"],
                     inp.choice("locale", ["en-US", "pl"]) if kind == "options" else "en-US",
                     functions={"F": boom, "G": two}, reffuncs={"F": refboom, "G": reftwo})
    if kind == "agree":
        args, ref = rt.arguments(inp, job["args"])
    elif kind == "decimal":
        text, num, scale = inp.choice("value", [("1", 1, 0), ("2.5", 25, 1), ("0", 0, 0), ("-1", -1, 0), ("3", 3, 0),
                                                ("12345678901234567890123", 12345678901234567890123, 0)])
        args, ref = {"v": Decimal(text)}, {"v": ("num", num, scale, {})}
    else:
        n = inp.int("n", -3, 130)
        t = inp.choice("type", ["ordinal", "cardinal"])
        args, ref = {"v": fluent_number(n, type=t)}, {"v": ("num", n, 0, {"type": t})}
    rt.agree(E, b, r, args, ref)
