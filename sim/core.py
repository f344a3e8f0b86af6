"""Seeded run engine: plans, execution context, worker pool, minimiser, replay, evidence.

One run = one plan (JSON), derived from one integer; executing a plan is a pure
function of the plan and of the code in the repository under test.
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback
from collections import Counter
from multiprocessing import connection, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def derive(*parts) -> int:
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Violation(Exception):
    def __init__(self, kind, message, **detail):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message, self.detail = kind, message, detail


class Discard(Exception):
    """The plan is outside the property's premise (e.g. ill-conditioned); not counted."""


class Ctx:
    """Everything a run records. Nothing here draws randomness or reads a clock."""

    def __init__(self):
        self._h = hashlib.sha256()
        self.events = 0
        self.faults = Counter()     # fault kinds that actually fired
        self.probes = Counter()     # rare conditions reached
        self.calls = Counter()      # API calls made on real code
        self.states = set()         # abstract states reached
        self.sim_time = 0.0
        self.nontrivial = False
        self.checks = 0             # oracle evaluations
        self.trace = None           # optional list of events (replay mode)
        self.step = None

    def log(self, *ev):
        self.events += 1
        s = repr(ev)
        self._h.update(s.encode())
        if self.trace is not None:
            self.trace.append(s if len(s) < 400 else s[:400] + "...")

    def logbits(self, name, value):
        self.log(name, bits(value))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, cond=True):
        if cond:
            self.probes[name] += 1

    def state(self, *s):
        self.states.add(hashlib.sha256(repr(s).encode()).hexdigest()[:16])

    def fail(self, kind, message, **detail):
        raise Violation(kind, message, **detail)

    def require(self, cond, kind, message, **detail):
        self.checks += 1
        if not cond:
            raise Violation(kind, message if isinstance(message, str) else message(), **detail)

    def digest(self):
        return self._h.hexdigest()[:24]


def bits(v):
    """Stable hash of a (nested) value, bit exact for floats."""
    import numpy as np
    h = hashlib.sha256()

    def rec(x):
        if isinstance(x, dict):
            h.update(b"{")
            for k in sorted(x, key=repr):
                h.update(repr(k).encode()); rec(x[k])
            h.update(b"}")
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for k in x:
                rec(k)
            h.update(b"]")
        elif x is None or isinstance(x, (str, bool)):
            h.update(repr(x).encode())
        else:
            a = np.asarray(x)
            if a.dtype.kind in "iub":
                a = a.astype(np.int64)
            elif a.dtype.kind == "f":
                a = a.astype(np.float64) + 0.0
            h.update(repr(a.shape).encode()); h.update(np.ascontiguousarray(a).tobytes())
    rec(v)
    return h.hexdigest()[:16]


def frames_in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def copying_failed(e):
    """The estimator could not be pickled, copied or cloned (raised inside pickle/copy/clone, not in our code)."""
    if "pickle" in f"{type(e).__name__} {e}":
        return True
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and (tb[-1].filename.endswith(("/copy.py", "/pickle.py")) or tb[-1].name in ("clone", "_clone_parametrized"))


def execute_plan(prop, plan, trace=False):
    """Run one plan; returns a plain dict."""
    ctx = Ctx()
    if trace:
        ctx.trace = []
    out = {"violation": None, "harness_error": None, "discard": False}
    try:
        prop.execute(plan, ctx)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "message": v.message, "detail": v.detail, "step": ctx.step}
    except Discard:
        out["discard"] = True
    except RecursionError:
        out["harness_error"] = traceback.format_exc()
    except Exception as e:  # noqa: BLE001
        if frames_in_repo(e.__traceback__) or copying_failed(e):
            tbs = traceback.extract_tb(e.__traceback__)
            out["violation"] = {
                "kind": f"unexpected-error:{type(e).__name__}",
                "message": f"a call that must succeed raised {type(e).__name__}: {str(e)[:300]}",
                "detail": {"where": [f"{os.path.basename(f.filename)}:{f.name}" for f in tbs if f.filename.startswith(SRC)][-3:]},
                "step": ctx.step,
            }
        elif isinstance(e, (ValueError, IndexError, TypeError, KeyError, ArithmeticError)):
            # the oracle could not even evaluate what a public call returned (wrong shape, missing key, not a number):
            # on a tree where every result is well formed this never happens
            f = traceback.extract_tb(e.__traceback__)[-1]
            out["violation"] = {"kind": f"malformed-result:{type(e).__name__}", "step": ctx.step, "detail": {"where": f"{os.path.basename(f.filename)}:{f.name}"},
                                "message": f"a result could not be evaluated: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(f.filename)}:{f.lineno})"}
        else:
            out["harness_error"] = traceback.format_exc()
    finally:
        sys.settrace(None)
    out.update(digest=ctx.digest(), events=ctx.events, faults=dict(ctx.faults), probes=dict(ctx.probes),
               calls=dict(ctx.calls), states=sorted(ctx.states), sim_time=ctx.sim_time,
               nontrivial=ctx.nontrivial, checks=ctx.checks)
    if trace:
        out["trace"] = ctx.trace
    return out


def make_plan(prop, seed, index, tier):
    rng = random.Random(derive(prop.ID, seed, index))
    return json.loads(json.dumps(prop.plan(rng, index, tier)))


# ---------------------------------------------------------------- worker pool

def _worker(conn, prop, seed, tier):
    quiet_worker()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        try:
            if isinstance(i, dict):
                res = execute_plan(prop, i)
            else:
                res = execute_plan(prop, make_plan(prop, seed, i, tier))
        except BaseException:  # noqa: BLE001
            res = {"harness_error": traceback.format_exc(), "violation": None}
        conn.send(res)


def quiet_worker():
    import warnings
    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")


class Pool:
    def __init__(self, prop, seed, tier, workers, limit):
        self.prop, self.seed, self.tier, self.limit = prop, seed, tier, limit
        self.mp = get_context("fork")
        self.workers = [self._spawn() for _ in range(workers)]

    def _spawn(self):
        a, b = self.mp.Pipe()
        p = self.mp.Process(target=_worker, args=(b, self.prop, self.seed, self.tier), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "job": None, "t": 0.0}

    def map(self, jobs, deadline, on_result):
        """jobs: iterable of (key, payload). on_result(key, res) -> True to stop dispatching."""
        jobs = iter(jobs)
        stop = False
        active = 0
        while True:
            for k, w in enumerate(self.workers):
                if w["job"] is None and not stop and time.time() < deadline:
                    nxt = next(jobs, None)
                    if nxt is None:
                        stop = True
                        break
                    w["job"], w["t"] = nxt, time.time()
                    w["c"].send(nxt[1])
                    active += 1
            if time.time() >= deadline:
                stop = True
            if active == 0:
                if stop:
                    return
                continue
            ready = connection.wait([w["c"] for w in self.workers if w["job"] is not None], timeout=0.5)
            for w in self.workers:
                if w["job"] is None:
                    continue
                res = None
                if w["c"] in ready:
                    try:
                        res = w["c"].recv()
                    except (EOFError, ConnectionResetError):
                        w["p"].join(5)
                        res = {"violation": None, "harness_error": f"worker died rc={w['p'].exitcode}", "died": True}
                elif time.time() - w["t"] > self.limit:
                    res = {"violation": None, "harness_error": None, "hang": True}
                if res is None:
                    continue
                key = w["job"][0]
                w["job"] = None
                active -= 1
                if res.get("hang") or res.get("died"):
                    w["p"].kill(); w["p"].join(); w["c"].close()
                    w.update(self._spawn())
                if on_result(key, res):
                    stop = True

    def close(self):
        for w in self.workers:
            try:
                w["c"].send(None)
            except Exception:  # noqa: BLE001
                pass
        for w in self.workers:
            w["p"].join(0.5)
            if w["p"].is_alive():
                w["p"].kill()


# ---------------------------------------------------------------- minimiser

def minimise(prop, pool_run, plan, kind, deadline):
    """Greedy delta debugging over plan['ops'] and the property's own simplifications."""
    best = plan

    def fails(p):
        if time.time() > deadline:
            return False
        r = pool_run(p)
        v = r.get("violation")
        return bool(v) and v["kind"] == kind

    def ddmin(key):
        nonlocal best
        n = 2
        while len(best[key]) >= 1 and time.time() < deadline:
            size = max(1, len(best[key]) // n)
            hit = False
            for a in range(0, len(best[key]), size):
                cand = dict(best, **{key: best[key][:a] + best[key][a + size:]})
                if fails(cand):
                    best, hit = cand, True
                    break
            if not hit:
                if size == 1:
                    break
                n = min(n * 2, max(len(best[key]), 1))

    for _ in range(2):
        before = json.dumps(best, sort_keys=True)
        if "ops" in best:
            ddmin("ops")
        for cand in getattr(prop, "simplify", lambda p: [])(best):
            if time.time() > deadline:
                break
            if json.dumps(cand, sort_keys=True) != json.dumps(best, sort_keys=True) and fails(cand):
                best = cand
        if json.dumps(best, sort_keys=True) == before:
            break
    return best
