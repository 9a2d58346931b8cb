#!/usr/bin/env python3
"""Plant bugs:  plant.py FILE [NAME...]
FILE defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (Python source), needs, breaks.
Each is applied to /repo, tested, demonstrated, run against the check of its property, undone, and kept in /verif/seeded/<id>."""
import json
import os
import subprocess
import sys

REPO = "/repo"
OUT = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- .")


def plant(b, checks=()):
    d = os.path.join(OUT, b["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w", encoding="utf-8", newline="") as f:
        f.write(b["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    undo()
    clean = sh("bash %s/demo.sh" % d, cwd=REPO)
    res = {"clean": clean.returncode}
    try:
        for file, old, new in b["edits"]:
            p = os.path.join(REPO, file)
            s = open(p, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                return "edit matches %d times: %r" % (s.count(old), old)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(s.replace(old, new))
        with open(d + "/patch.diff", "w", encoding="utf-8", newline="") as f:
            f.write(subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout.decode("utf-8"))
        t = sh("bash /opt/vp/test.sh /tmp/plant.json | tail -1").stdout.strip()
        bad = sh("bash %s/demo.sh" % d, cwd=REPO)
        res.update(tests=t, bad=bad.returncode)
        for c in [b["property"]] + list(checks):
            r = sh("timeout 900 python3-vt check.py %s --tier quick" % c, cwd="/verif")
            res[c] = "%d %s" % (r.returncode, "; ".join(l for l in r.stdout.splitlines() if l.startswith("VIOLATION"))[:150])
            if r.returncode not in (0, 1):
                res[c] += r.stdout[-300:] + r.stderr[-500:]
    finally:
        undo()
    res["demo"] = (clean.stderr.strip().splitlines() or [""])[-1] + " | " + (bad.stderr.strip().splitlines() or [""])[-1][:150]
    ok = res["clean"] == 0 and res["bad"] not in (0,) and "453 passed, 0 failed" in res["tests"]
    return ("OK  " if ok else "BAD ") + str(res)


def main():
    ns = {}
    exec(open(sys.argv[1], encoding="utf-8").read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and not any(b["id"].startswith(x) for x in sys.argv[2:]):
            continue
        print(b["id"], plant(b), flush=True)


if __name__ == "__main__":
    main()
