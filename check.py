#!/opt/veriftools/pyvenv/bin/python3
"""python3-vt check.py <property id> [--tier quick|thorough]  -- decide one property on /repo."""
import argparse
import json
import os
import re
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

BUDGET = {"quick": 640, "thorough": 840}


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) region=(\S+) message=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--jobs", help="only jobs whose name matches this regex (debugging)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    pid = a.prop
    mod = pid.lower()
    tier = a.tier
    t0 = time.time()
    from sx import explore
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = load_known(pid)
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    seen = {}
    new = []
    printed_known = set()
    unconfirmed = []

    def confirm(findings):
        for f in findings:
            key = (f["message"], f["region"], f["job"].get("name"))
            if seen.get(key, 0) >= 2 or len(seen) > 200:
                continue
            hit = None
            for region, rx, desc in known:
                if f["region"] == region and rx.search(f["message"]):
                    hit = desc
            seen[key] = seen.get(key, 0) + 1
            if hit and hit in printed_known:
                continue
            n = len(new) + len(unconfirmed) + len(printed_known)
            path = os.path.join(evdir, "%s-replay-%d.json" % (pid, n))
            rec = {"property": pid, "module": mod, "job": f["job"], "values": f["values"],
                   "message": f["message"], "found_by": f["found"]}
            with open(path, "w", encoding="utf-8") as o:
                json.dump(rec, o, indent=1)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([py, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True, env=env)
            ok = p.returncode == 1 and "violated" in p.stdout
            if not ok:
                unconfirmed.append((f, p.stdout[-300:] + p.stderr[-600:]))
                continue
            if hit:
                printed_known.add(hit)
                continue
            new.append((path, rec))
        return bool(new)

    if a.jobs:
        os.environ["SX_JOBS"] = a.jobs
    secs = a.seconds or BUDGET.get(tier, 420)
    res = explore.explore(mod, tier, secs, stop_on=confirm)
    confirm(res["findings"])
    T = res["total"]
    nat = res["runner"].nat
    jobs = res["jobs"]
    per = res["per"]
    # the explored regions partition each job's input space (sum of exact region sizes)
    cert = 0
    bad = []
    for j, st in enumerate(per):
        if st.exact_volume and j not in res["rest"] and st.paths and not res["stopped"]:
            if st.init_volume in (None, -1):
                continue
            if st.init_volume != st.volume:
                bad.append(jobs[j].get("name"))
            else:
                cert += 1
    untouched = sum(1 for j, st in enumerate(per) if not st.paths and j not in res["rest"])
    expect = getattr(nat, "EXPECT", [])
    missing = [t for t in expect if t not in T.tags]
    exhaustive = not res["rest"] and not res["errors"] and not T.truncated and not T.engine_errors \
        and not T.divergences and not bad and not res["stopped"]
    samples = sample_paths(res)
    cov = {
        "states": T.paths,
        "transitions": T.branches,
        "traces_validated_against_impl": T.native_runs,
        "samples": samples,
        "exhaustive": exhaustive,
        "explanation": "symbolic execution of the real source: each state is one feasible path condition over the "
                       "symbolic inputs, each transition one decided branch; on every path z3 decides PC (reachable) "
                       "and PC & not P (violation), and the PC's model is run on the unmodified code",
        "jobs": len(jobs),
        "jobs_complete": len(jobs) - len(res["rest"]) - untouched,
        "unexplored_prefixes": sum(res["rest"].values()),
        "functions_encoded": sorted(f for f in T.functions if not f.startswith(("props", "spec"))),
        "harness_functions": sorted(f for f in T.functions if f.startswith(("props", "spec"))),
        "bounds": nat.bounds(tier) if hasattr(nat, "bounds") else getattr(nat, "BOUNDS", ""),
        "paths_completed": T.paths - T.truncated,
        "paths_truncated": T.truncated,
        "paths_infeasible": T.infeasible,
        "truncation_reasons": dict(sorted(T.trunc_why.items(), key=lambda x: -x[1])[:12]),
        "engine_divergences": T.divergences,
        "engine_errors": T.engine_errors,
        "obligations": T.vcs,
        "obligations_decided_by_domains": T.vcs_simplified,
        "obligations_put_to_z3": T.vcs_z3,
        "path_conditions_sat_in_z3": T.pc_sat,
        "z3_queries": T.z3_queries,
        "z3_sat": T.z3_sat,
        "z3_unsat": T.z3_unsat,
        "z3_unknown": T.z3_unknown,
        "solver_seconds": round(T.z3_time, 2),
        "branch_decisions_by_domain_presolve": T.presolved,
        "concretisations": T.concretisations,
        "jobs_with_exact_volume_certificate": cert,
        "volume_mismatches": bad,
        "inputs_covered_at_least": str(T.volume),
        "reachability": {k: v for k, v in sorted(T.tags.items())},
        "reachability_missing": missing,
        "worker_errors": [e[-800:] for e in res["errors"][:5]],
        "unconfirmed_candidates": [{"values": f["values"], "message": f["message"], "replay": o}
                                   for f, o in unconfirmed[:5]],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(nat, "ASSUMPTIONS", [])) + GENERAL,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w", encoding="utf-8") as o:
        json.dump(ev, o, indent=1, ensure_ascii=True)
    for k in sorted(printed_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d/%d jobs complete, %d paths (%d truncated), %d obligations (%d to z3), %d z3 queries %.1fs, "
          "%d native replays, exhaustive=%s, %.1fs" % (
              pid, tier, cov["jobs_complete"], len(jobs), T.paths, T.truncated, T.vcs, T.vcs_z3, T.z3_queries,
              T.z3_time, T.native_runs, exhaustive, ev["wall_s"]))
    if T.truncated or T.divergences or T.engine_errors or bad or res["errors"] or missing or unconfirmed:
        print("  notes: divergences=%d engine_errors=%d volume_mismatch=%s missing_tags=%s unconfirmed=%d why=%s" % (
            T.divergences, T.engine_errors, bad[:3], missing, len(unconfirmed), cov["truncation_reasons"]))
        for e in res["errors"][:3]:
            print("  worker error:", e[-1500:])
        for f, o in unconfirmed[:3]:
            print("  unconfirmed:", json.dumps(f)[:600], o)
    if not exhaustive and not new:
        print("  INCOMPLETE: the property held on everything explored; see evidence for what was not explored")
    for path, rec in new[:5]:
        print("  %s -- job %s input %s" % (rec["message"][:300], rec["job"].get("name"), json.dumps(rec["values"])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if new:
        return 1
    if T.paths == 0 or T.paths == T.truncated + T.divergences + T.engine_errors:
        print("ERROR: nothing was decided")
        return 2
    return 0


GENERAL = [
    "CPython semantics of the rewritten source equal the original's (checked per path by running the model natively)",
    "z3 and the interval pre-solver are sound; an unknown answer truncates the path and is counted",
    "strings longer, structures larger and histories longer than the stated bounds are not covered",
]


def selftest():
    """setup_cmd: the tools are here and the engine loads, rewrites and decides."""
    import z3
    from sx import core, loader, vals
    loader.install()
    loader.native_paths()
    import sxfluent.syntax as S
    st = core.Stats()
    c = core.Ctx([], st)
    core.set_cur(c)
    v = c.var(core.CHARS)
    s = vals.SymStr(("a", " ", "=", " ", vals.SC(v)))
    r = S.parse(s)
    core.set_cur(None)
    ok = type(r).__name__ == "Resource" and c.pending and st.branches
    print("selftest: z3 %s, %d branches, %d open alternatives" % (z3.get_version_string(), st.branches, len(c.pending)))
    return 0 if ok else 2


def sample_paths(res):
    out = []
    for st in res["per"]:
        for s in getattr(st, "samples", []):
            out.append(s)
            break
        if len(out) >= 6:
            break
    return out or ["none"]


if __name__ == "__main__":
    sys.exit(main())
