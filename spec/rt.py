"""Shared by the runtime harnesses: bundles, arguments, and the reference evaluator side by side."""
from decimal import Decimal
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone, FluentNumber, fluent_number
from spec import evaluate, grammar

NUMBERS = {"n": "int"}


def arguments(inp, spec):
    """spec: {name: kind} -> (python args, reference args)."""
    args = {}
    ref = {}
    for name in spec:
        kind = spec[name]
        if kind[0] == "int":
            v = inp.int(name, kind[1], kind[2])
            args[name] = v
            ref[name] = ("num", v, 0, {})
        elif kind[0] == "dec":
            v = inp.int(name, kind[1], kind[2])
            args[name] = v / 10 ** kind[3]
            ref[name] = ("num", v, kind[3], {})
        elif kind[0] == "decimal":
            v = inp.int(name, kind[1], kind[2])
            args[name] = Decimal(v).scaleb(-kind[3])
            ref[name] = ("num", v, kind[3], {})
        elif kind[0] == "str":
            v = inp.text(name, kind[1])
            args[name] = v
            ref[name] = ("str", v)
        elif kind[0] == "list":
            args[name] = [1]
            ref[name] = ("other",)
    return args, ref


def bundle(sources, locale="en-US", isolating=False, functions=None, reffuncs=None):
    """A real bundle and the reference one over the same parsed resources."""
    b = FluentBundle([locale], use_isolating=isolating, functions=functions)
    r = evaluate.Bundle(locale, reffuncs, isolating)
    for s in sources:
        res = FluentResource(s)
        r.add(grammar.dump(res.body))
        b.add_resource(res)
    return b, r


def patterns(b, r):
    """Every pattern of the bundle: (label, real pattern, reference pattern)."""
    out = []
    for mid in r.messages:
        m = b.get_message(mid)
        value, attrs = r.messages[mid]
        if value is not None:
            out.append((mid, m.value, value))
        for a in attrs:
            out.append((mid + "." + a, m.attributes[a], attrs[a]))
    return out


def same_errors(E, got, want):
    E.check(len(got) == len(want), "another number of errors")
    for i in range(len(want)):
        kind, text = want[i]
        E.check(isinstance(got[i], Exception), "an error is no exception")
        if kind is not None:
            E.check(type(got[i]).__name__ == kind, "another kind of error")
        if text is not None:
            E.check(str(got[i]) == text, "another error text")


def agree(E, b, r, args, ref):
    """Format everything both ways and compare."""
    for label, real, want in patterns(b, r):
        agree1(E, b, r, real, want, args, ref)


def agree1(E, b, r, real, want, args, ref):
    try:
        text, errors = r.format(want, dict(ref))
    except evaluate.Unspecified:
        E.tag("unspecified")
        return
    got, goterrors = b.format_pattern(real, dict(args))
    E.check(isinstance(got, str), "the result is no string")
    E.check(got == text, "another text")
    same_errors(E, goterrors, errors)
    E.observe(got)
    for kind, _ in errors:
        E.tag("error:" + str(kind))
    E.tag("clean" if not errors else "errors")


def number(n):
    return fluent_number(n)


def same_value(got, want):
    """A value handed to a function is the reference one."""
    if want[0] == "str":
        return True if isinstance(got, str) and got == want[1] else False
    if want[0] == "num":
        if not isinstance(got, FluentNumber):
            return False
        if want[2] == 0:
            return True if got == want[1] else False
        return True if got == want[1] / 10 ** want[2] else False
    if want[0] == "none":
        return True if isinstance(got, FluentNone) and got.name == want[1] else False
    return True
