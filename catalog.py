#!/usr/bin/env python3
"""The single table behind properties.jsonl and MANIFEST.json:  python3 catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SYN = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})


exec(open(os.path.join(HERE, "catalog_entries.py"), encoding="utf-8").read())

NOTE = ("Bounded symbolic execution of the real source: every feasible path within the stated bounds is explored with "
        "symbolic inputs; z3 decides each path condition and every undecided obligation, a counterexample is replayed "
        "on the unmodified code before it is reported, and each path's model is cross-run natively. Trusts z3, the "
        "interval pre-solver, the source rewriter and the library stand-ins listed in DESIGN.md; nothing is claimed "
        "beyond the bounds.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    claimed = [p["id"] for p in PROPS if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
    checks = []
    for i in claimed:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the real Python source with z3 deciding every path",
                       "level": "model_checking", "level_note": NOTE})
    na = [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] not in claimed]
    man = {"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Generated by catalog.py. One driver (check.py) decides every property; engine in sx/, harnesses in "
                    "props/, reference models in spec/."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
