"""C09: checkpoint, crash, restore and replay reproduce the uninterrupted model bit for bit."""
import copy
import hashlib
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import core, ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats, call
from ..core import bits
from ..faults import InjectedCrash, SimDisk, Tracer

ID = "C09"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1000, "thorough": 15000}
RULE = ("seeded deployments of all four estimators: a trainer checkpoints with pickle (drawn protocol) to a simulated disk whose un-synced writes are lost or "
        "torn, crashes between calls or at a drawn source line inside one, restarts from the newest intact checkpoint and replays the logged batches; copies "
        "and clones are taken on the way. A golden estimator never stops and must be bit-identical whenever the trainer has caught up. Every 80th run restores "
        "in a fresh interpreter with another hash seed. Non-trivial: at least one crash with a restore from a checkpoint and a later update; distinct by digest")
STATE_MEASURE = "hash of (estimator, distribution, crash kind, torn, batches replayed class)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression", "pickle/copy/clone support of every part"]
STUB = LIN_STUB + ["disk (durable and volatile images, torn writes)", "write-ahead log of batches"]
ASSUMPTIONS = TRUST + ["the batch log is durable (the property is about the model, not the log)"]
simplify = ests.simplify_any


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "linear", "lasso", "gamlss", "gamlss", "gamlss"),
                                     methods=("ols", "ols", "lasso", "elasticnet", "ridge"))
    ops, net = world.schedule(rng, data["n"], n_init, ckpts=0.5, crashes=0.3, reads=0.1)
    ops = world.cap(ops, 20)
    out = []
    for o in ops:
        if o["op"] == "ckpt":
            o["proto"] = rng.choice([2, 4, 5])
        if o["op"] == "crash" and rng.random() < 0.5:
            o["inside"] = rng.random()
        out.append(o)
        r = rng.random()
        if r < 0.1:
            out.append({"t": o["t"], "op": "copy"})
        elif r < 0.16:
            out.append({"t": o["t"], "op": "clone"})
    plan = {"cfg": cfg, "data": data, "ops": out, "net": net}
    if i % 80 == 0:
        plan["fresh"] = rng.randrange(1, 1000)
    return plan


def warmup():
    ests.warm()


def fresh_process(blob, plan, ops, hashseed):
    """Restore in another interpreter (other hash seed), replay, return the digest of what can be observed."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ("import sys,json,pickle,warnings;warnings.simplefilter('ignore');sys.path[:0]=%r;"
            "from sim import gen,ests,twin;from sim.core import bits;gen.unjit();"
            "b=sys.stdin.buffer;n=int(b.readline());doc=json.loads(b.read(n));est=pickle.loads(b.read());"
            "d=gen.Data(doc['data']);import os;so=os.dup(1);os.dup2(os.open(os.devnull,1),1);r=[ests.attempt(est,o,d)[0] for o in doc['ops']];"
            "os.write(so,('RES '+json.dumps([r,bits(twin.observe(est,d.X[:4]))])).encode())") % ([here, core.SRC],)
    doc = json.dumps({"data": plan["data"], "ops": ops}).encode()
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=str(len(doc)).encode() + b"\n" + doc + blob, env=env,
                       capture_output=True, timeout=100)
    out = r.stdout.decode()
    if "RES " not in out:
        return None, r.stderr.decode()[-600:]
    return json.loads(out.split("RES ", 1)[1]), None


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    golden, est = gen.build(cfg), gen.build(cfg)
    log = []                # accepted calls, in order (durable)
    disk, gens = SimDisk(), 0
    restored, after, crashed = 0, 0, False

    def save(proto):
        body = pickle.dumps((est, len(log)), protocol=proto)
        return hashlib.sha256(body).digest() + body

    def load():
        """newest intact checkpoint"""
        for g in range(gens, 0, -1):
            raw = disk.durable.get(f"ckpt{g}")
            if raw is None or hashlib.sha256(raw[32:]).digest() != raw[:32]:
                if raw is not None:
                    ctx.probe("torn_checkpoint_skipped")
                continue
            return pickle.loads(raw[32:])
        return None

    def restart(tear):
        nonlocal est, restored
        torn = disk.crash(tear)
        ctx.fault("torn_write", torn)
        got = load()
        if got is None:
            est, pos = gen.build(cfg), 0
        else:
            (est, pos) = got
            restored += 1
        for o in log[pos:]:
            r = ests.attempt(est, o, data)
            ctx.require(r[0] == "ok", "replay-refused", lambda: f"step {ctx.step}: a batch accepted before the crash is refused in replay: {r}")
        ctx.state(cfg["est"], cfg.get("dist"), torn > 0, min(len(log) - pos, 6))
        twin.same(ctx, est, golden, Xq, "restored-model-differs", f"step {ctx.step} after restart from position {pos} of {len(log)}")

    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        kind = op["op"]
        if kind in ("fit", "update"):
            if kind == "update" and not log:
                continue
            if op["op"] == "fit" and log:
                continue
            r0 = ests.attempt(golden, op, data)
            r = ests.attempt(est, op, data)
            ctx.calls[kind] += 1
            ctx.require(r == r0, "restored-outcome-differs", f"step {step}: {r} vs {r0} on the uninterrupted model")
            if r[0] == "ok":
                log.append({"op": kind, "rows": op["rows"]})
                after += restored > 0
            twin.same(ctx, est, golden, Xq, "restored-model-differs" if restored else "model-disturbed", f"step {step} ({kind})")
        elif kind == "ckpt":
            before = bits(twin.observe(est, Xq))
            gens += 1
            disk.write(f"ckpt{gens}", save(op["proto"]))
            if op["sync"]:
                disk.fsync(f"ckpt{gens}")
                ctx.fault("checkpoint_synced")
            else:
                ctx.fault("checkpoint_unsynced")
            ctx.require(bits(twin.observe(est, Xq)) == before, "saving-disturbs", f"step {step}: saving changed the running model")
        elif kind == "crash":
            if "inside" in op and log:
                nxt = next((o for o in plan["ops"][step + 1:] if o["op"] == "update"), None)
                if nxt is not None:
                    dry = copy.deepcopy(est)
                    with Tracer() as t:
                        ests.attempt(dry, nxt, data)
                    X, y, w = data.batch(nxt["rows"])
                    with Tracer(1 + int(op["inside"] * (t.n - 1)), "Crash") as t2:
                        try:
                            call(est, "update", X, y, w)
                        except InjectedCrash:
                            ctx.fault("crash_inside_call")
                        except Exception:  # noqa: BLE001
                            pass
                    ctx.probe("crash_line_hit", t2.fired is not None)
            else:
                ctx.fault("crash_between_calls")
            crashed = True
            restart(op["tear"])
        elif kind == "copy":
            ctx.fault("copy")
            before = bits(twin.observe(est, Xq))
            dup = copy.deepcopy(est)
            twin.same(ctx, dup, est, Xq, "copy-differs", f"step {step}")
            if log:
                # let the copy diverge; the original must not follow
                ests.attempt(dup, {"op": "update", "rows": log[-1]["rows"]}, data)
                ctx.require(bits(twin.observe(est, Xq)) == before, "copy-disturbs", f"step {step}: updating a deep copy changed the original")
                fork = pickle.loads(pickle.dumps(est))
                ests.attempt(fork, {"op": "update", "rows": log[-1]["rows"]}, data)
                twin.same(ctx, dup, fork, Xq, "copy-evolves-differently", f"step {step}")
        elif kind == "clone" and len(log) <= 6:
            from sklearn.base import clone
            try:
                c = clone(est)
            except Exception as e:  # noqa: BLE001
                ctx.fail("clone-failed", f"step {step}: clone raised {type(e).__name__}: {e}")
            ctx.fault("clone")
            ctx.require(not hasattr(c, "n_observations_"), "clone-fitted", f"step {step}: a clone reports to be fitted")
            for o in log:
                ests.attempt(c, o, data)
            twin.same(ctx, c, golden, Xq, "clone-learns-differently", f"step {step}")
        elif kind == "read" and log:
            twin.observe(est, Xq)
    if plan.get("fresh") and len(log) >= 2:
        k = len(log) // 2 or 1
        half = gen.build(cfg)
        for o in log[:k]:
            ests.attempt(half, o, data)
        res, err = fresh_process(pickle.dumps(half), plan, log[k:], plan["fresh"])
        ctx.fault("restore_in_fresh_process")
        ctx.require(res is not None, "fresh-process-restore-failed", lambda: f"restoring in a new process failed: {err}")
        ctx.require(res[1] == bits(twin.observe(golden, Xq)), "fresh-process-differs", "a model restored in a new process and replayed differs from the uninterrupted one")
    ctx.nontrivial = crashed and restored > 0 and after > 0
    _ = np
