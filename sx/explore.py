"""Exploration of one property: symbolic paths over a pool of worker processes."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
from collections import deque

from . import core, harness, loader, state, vfs
from .core import Ctx, EngineError, Failed, Infeasible, Stale, Stats, StepLimit, Stop, Truncated, Violation

SLICE = 0.4


class NativeTimeout(BaseException):
    pass


def _alarm(*a):
    raise NativeTimeout()


class Runner:
    def __init__(self, mod, tier):
        sys.setrecursionlimit(20000)
        loader.install()
        loader.native_paths()
        extra = "/opt/venv/lib/python3.12/site-packages"
        if extra not in sys.path:
            sys.path.append(extra)
        if loader.VERIF not in sys.path:
            sys.path.insert(0, loader.VERIF)
        self.sx = importlib.import_module("sxprops." + mod)
        self.nat = importlib.import_module("props." + mod)
        self.jobs = self.nat.jobs(tier)
        if os.environ.get("SX_JOBS"):
            import re
            self.jobs = [j for j in self.jobs if re.search(os.environ["SX_JOBS"], j["name"])]
        self.snap = state.Snapshot()
        self.max_steps = getattr(self.nat, "MAX_STEPS", 250000)
        self.crosscheck = getattr(self.nat, "CROSSCHECK", True)
        self.reset = getattr(self.nat, "reset", None)

    def native(self, job, vals, limit=10):
        """Run the harness on the unmodified code.  -> (verdict, message, observed)"""
        e = harness.NatE()
        lim = sys.getrecursionlimit()
        use_alarm = threading.current_thread() is threading.main_thread()
        if use_alarm:
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, limit)
        sys.setrecursionlimit(1000 + _depth())
        try:
            self.nat.run(e, harness.NatInputs(vals), job)
            return "ok", "", e
        except harness.SkipRun:
            return "skip", "", e
        except Violation as x:
            return "violation", str(x), e
        except NativeTimeout:
            return "violation", "no answer within %ss" % limit, e
        except RecursionError as x:
            return "violation", "RecursionError: %s" % x, e
        except Exception as x:
            return "violation", "uncaught %s: %s" % (type(x).__name__, x), e
        finally:
            sys.setrecursionlimit(lim)
            if use_alarm:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            e.cleanup()

    def path(self, jid, prefix, st):
        """Explore one path; returns (pending prefixes, finding or None)."""
        job = self.jobs[jid]
        self.snap.restore()
        vfs.reset()
        c = Ctx(prefix, st, self.max_steps)
        core.set_cur(c)
        inp = harness.SymInputs(c)
        e = harness.SymE(c)
        find = None
        kind = "ok"
        msg = ""
        err = None
        try:
            try:
                self.sx.run(e, inp, job)
            except Violation as x:  # cannot happen symbolically
                kind, msg = "cand", str(x)
            except Exception as x:
                kind, msg = "cand", "uncaught %s: %s" % (type(x).__name__, _safe(x))
                err = traceback.format_exc()
            except Truncated as x:
                kind, msg = "trunc", x.why
            except StepLimit:
                kind, msg = "cand", "step limit"
            if kind != "ok":
                c.flush()
            else:
                c.flush()
        except Failed as x:
            kind, msg = "failed", x.msg
        except Infeasible:
            kind = "infeasible"
        except Truncated as x:
            kind, msg = "trunc", x.why
        except Stale:
            kind, msg = "engine", "stale symbolic value in module state"
        except EngineError as x:
            kind, msg = "engine", str(x)
        finally:
            pass
        try:
            if kind == "infeasible":
                st.infeasible += 1
                st.exact_volume = False
                return c.pending, None
            st.paths += 1
            st.steps += c.steps
            for t in c.tags:
                st.tags[t] = st.tags.get(t, 0) + 1
            vs = list(inp.vars())
            if any(v in c.cvars for v in vs) or kind != "ok":
                st.exact_volume = False
            elif kind == "ok":
                p = c.init_volume
                k = 1
                for v in vs:
                    k *= core.size(c.dom[v])
                st.init_volume = p if st.init_volume in (None, p) else -1
                st.volume += k
            if kind == "engine":
                st.engine_errors += 1
                st.trunc_why["engine: " + msg] = st.trunc_why.get("engine: " + msg, 0) + 1
                if not c.dom:
                    return c.pending, None
            if kind == "failed":
                m = c.cex
            else:
                try:
                    m = c.model()
                except Truncated:
                    m = None
                if m is None:
                    st.engine_errors += 1
                    return c.pending, None
                st.pc_sat += 1
            vals = inp.values(m)
        finally:
            core.set_cur(None)
        if kind == "trunc":
            st.truncated += 1
            st.trunc_why[msg] = st.trunc_why.get(msg, 0) + 1
        if not st.samples and kind == "ok":
            st.samples.append({"job": job.get("name"), "input": vals, "path_condition_vars": len(c.dom),
                               "branches": len(c.trace)})
        if not self.crosscheck and kind == "ok":
            return c.pending, None
        if self.reset:
            self.reset()
        verdict, nmsg, ne = self.native(job, vals)
        st.native_runs += 1
        if verdict == "violation":
            find = {"job": job, "values": vals, "message": nmsg, "region": ne.region,
                    "found": {"failed": "z3 model of PC & not P", "cand": "reachable escape (z3 model of PC)"}.get(
                        kind, "path witness (z3 model of PC)"), "sym_message": msg}
        elif kind in ("failed", "cand"):
            # the solver's counterexample does not reproduce: an engine divergence
            st.divergences += 1
            k = "divergence: %s" % msg
            st.trunc_why[k] = st.trunc_why.get(k, 0) + 1
            if os.environ.get("SX_DEBUG"):
                sys.stderr.write("DIVERGENCE job=%r values=%r %s native=%s\n%s\n" % (job, vals, msg, verdict, err or ""))
        elif kind == "ok":
            if len(ne.obs) != len(e.obs) or not all(
                    harness.agree(harness.under(a, m), b) for a, b in zip(e.obs, ne.obs)):
                st.divergences += 1
                k = "divergence: observed results differ"
                st.trunc_why[k] = st.trunc_why.get(k, 0) + 1
                if os.environ.get("SX_DEBUG"):
                    sys.stderr.write("OBSDIFF job=%r values=%r\n sym=%r\n nat=%r\n" % (
                        job, vals, [harness.under(a, m) for a in e.obs], ne.obs))
        return c.pending, find

    def slice(self, jid, prefixes, seconds, want_sample):
        """Depth-first exploration for some time."""
        st = Stats()
        finds = []
        stack = list(prefixes)
        end = time.time() + seconds
        sample = None
        while stack:
            p = stack.pop()
            pend, f = self.path(jid, p, st)
            stack.extend(pend)
            if f is not None:
                finds.append(f)
                if len(finds) >= 20:
                    break
            if time.time() > end:
                break
        return st, finds, stack, sample


def _depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def _safe(x):
    try:
        return str(x)
    except BaseException:
        return "?"


def _worker(r, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            try:
                task = conn.recv()
            except EOFError:
                return
            if task is None:
                return
            jid, prefixes, seconds = task
            try:
                st, finds, stack, _ = r.slice(jid, prefixes, seconds, False)
                conn.send((jid, st, finds, stack, None))
            except BaseException:
                core.set_cur(None)
                conn.send((jid, Stats(), [], [], traceback.format_exc()))
    except (BrokenPipeError, KeyboardInterrupt):
        return


def explore(mod, tier, seconds, nproc=None, stop_on=None):
    """Run all jobs.  -> dict with totals, findings and per-job coverage."""
    t0 = time.time()
    r = Runner(mod, tier)
    n = nproc or min(8, os.cpu_count() or 1)
    jobs = r.jobs
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    order = list(range(len(jobs)))
    if seed != 1:
        import random
        random.Random(seed).shuffle(order)
    per = [Stats() for _ in jobs]
    left = {}
    queue = deque((j, [[]]) for j in order)
    ctx = mp.get_context("fork")
    workers = []
    for _ in range(n):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_big, args=(r, b), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    findings = []
    errors = []
    deadline = t0 + seconds
    outstanding = {}
    stopped = False

    def feed(w):
        if not queue:
            return False
        jid, pref = queue.popleft()
        idle = sum(1 for x in workers if x[2] is None)
        sl = SLICE if len(queue) < 4 * n else 3 * SLICE
        # first visit to a job: a short slice, so that its subtrees can be shared out
        if len(pref) == 1 and not pref[0]:
            sl = min(sl, 0.25 if len(queue) < 2 * n else sl)
        w[1].send((jid, pref, sl))
        w[2] = (jid, pref)
        return True

    while True:
        now = time.time()
        if now < deadline and not stopped:
            for w in workers:
                if w[2] is None and w[0].is_alive():
                    if not feed(w):
                        break
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            if not queue or now >= deadline or stopped:
                break
            if not any(w[0].is_alive() for w in workers):
                errors.append("all workers died")
                break
        ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
        for w in busy:
            if w[1] in ready:
                try:
                    jid, st, finds, stack, err = w[1].recv()
                except (EOFError, OSError):
                    jid, pref = w[2]
                    w[2] = None
                    errors.append("worker died on job %s" % json.dumps(jobs[jid]))
                    w[0].join(1)
                    continue
                w[2] = None
                per[jid].add(st)
                if err:
                    errors.append(err)
                for f in finds:
                    findings.append(f)
                if stack:
                    chunk = max(1, (len(stack) + n - 1) // n)
                    if len(queue) > 6 * n:
                        chunk = len(stack)
                    for i in range(0, len(stack), chunk):
                        queue.append((jid, stack[i:i + chunk]))
            elif now > deadline + 60:
                os.kill(w[0].pid, signal.SIGKILL)
        if stop_on and findings and stop_on(findings):
            stopped = True
    for w in workers:
        try:
            w[1].send(None)
        except Exception:
            pass
    for w in workers:
        w[0].join(2)
        if w[0].is_alive():
            w[0].terminate()
    rest = {}
    for jid, pref in queue:
        rest[jid] = rest.get(jid, 0) + len(pref)
    total = Stats()
    for st in per:
        total.add(st)
    # volume certificate: the explored path regions partition each job's input space
    bad_volume = []
    exact = 0
    return {"runner": r, "jobs": jobs, "per": per, "total": total, "findings": findings, "errors": errors,
            "rest": rest, "wall": time.time() - t0, "stopped": stopped}


def _big(r, conn):
    """Run the worker in a thread with a large stack; native runs use no alarm there."""
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _worker(r, conn)
