#!/usr/bin/env python3
"""Run one recorded counterexample against the real, unmodified code in /repo.

usage: /opt/venv/bin/python replay.py FILE   -> exit 1 and the message if the property is violated
"""
import json
import os
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        rec = json.load(f)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.append(repo)
    for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs"):
        sys.path.insert(0, os.path.join(repo, p))
    extra = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(extra) and extra not in sys.path:
        sys.path.append(extra)
    import importlib
    from sx.nat import NatE, NatInputs, SkipRun, Violation
    mod = importlib.import_module("props." + rec["module"])
    e = NatE()

    def onalarm(*a):
        raise TimeoutError("no answer within 20s")

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(20)
    try:
        mod.run(e, NatInputs(rec["values"]), rec["job"])
    except SkipRun:
        print("SKIP")
        return 0
    except Violation as x:
        print(json.dumps({"violated": str(x), "region": e.region}))
        return 1
    except (Exception, RecursionError) as x:
        print(json.dumps({"violated": "uncaught %s: %s" % (type(x).__name__, str(x)[:300]), "region": e.region}))
        return 1
    finally:
        e.cleanup()
    print("HOLDS")
    return 0


if __name__ == "__main__":
    sys.exit(main())
