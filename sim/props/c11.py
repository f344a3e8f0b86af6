"""C11: estimators (and parameters) sharing configuration objects learn what they would learn alone."""
import copy

import numpy as np

from .. import ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats
from ..core import bits
from ..faults import Sched

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}
RULE = ("seeded populations of two or three estimators built from the same distribution, method, equation, dictionary and array objects (with different data, "
        "possibly different numbers of features), their calls interleaved one by one or in simulated threads switching at source lines by the seed; each must be "
        "bit-identical to the same estimator built from objects of its own, dictionaries in sorted key order, and run alone, and every shared object must be "
        "unchanged. Non-trivial: calls of at least two estimators interleaved; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator kinds, shared objects, interleaving of calls or thread switch prefix)"
REAL = ["OnlineLinearModel", "OnlineDistributionalRegression", "OnlineScaler", "estimation methods, distributions and links", "Python threads"]
STUB = LIN_STUB + ["thread scheduler (one runnable thread, seeded switches)"]
ASSUMPTIONS = TRUST + ["thread switches happen between source lines of the package", "selection='random' is left out here (its random numbers are shared by design of numpy)"]


def strip(m):
    if isinstance(m, dict) and "per" in m:
        return {"per": [[k, strip(v)] for k, v in m["per"]]}
    return {k: v for k, v in m.items() if k != "selection"} if isinstance(m, dict) else m


def linear_population(rng):
    """linear models sharing a method object that carries user arrays (bounds, start vectors)"""
    cfg, data, n_init = ests.rnd_linear(rng, methods=("lasso", "elasticnet", "ridge"))
    J = data["d"] + cfg["intercept"]
    if isinstance(cfg["method"], str):
        cfg["method"] = {"name": "lasso", "tolerance": 1e-4, "max_iterations": 30, "lambda_n": 5}
    cfg["method"] = strip(cfg["method"])
    if rng.random() < 0.8:
        cfg["method"] = ests.add_bounds(rng, cfg["method"], J)
    members = []
    for m in range(rng.randrange(2, 4)):
        c, d = dict(cfg), dict(data, seed=rng.randrange(1 << 40))
        if m and rng.random() < 0.4:
            c["forget"] = rng.choice([0.0, 0.02])
        ops, net = world.schedule(rng, d["n"], n_init)
        members.append({"cfg": c, "data": d, "ops": world.cap(ops, 5)})
    return cfg, members, net


def plan(rng, i, tier):
    if rng.random() < 0.2:
        cfg, members, net = linear_population(rng)
        return finish(rng, cfg, members, net)
    cfg, data, n_init = ests.rnd_gamlss(rng, methods=("ols", "lasso", "elasticnet", "ridge"))
    cfg["method"] = strip(cfg["method"])
    if rng.random() < 0.5:      # one method object for everything
        cfg["method"] = strip(ests.rnd_method(rng, rng.choice(["lasso", "ridge", "ridge", "elasticnet", "ols"])))
    cfg.setdefault("max_it_outer", 4)
    cfg.setdefault("max_it_inner", 4)
    free = isinstance(cfg.get("scale"), bool) and all(e in ("all", "intercept") for _, e in (cfg["eq"] or []))
    members = []
    for m in range(rng.randrange(2, 4)):
        c, d = dict(cfg), dict(data, seed=rng.randrange(1 << 40))
        if free and rng.random() < 0.6:
            d["d"] = rng.randrange(1, 4)
            d["xscale"], d["xshift"] = [1.0] * d["d"], [0.0] * d["d"]
        if m and rng.random() < 0.3:
            c["forget"] = rng.choice([0.0, 0.02])
        if m and rng.random() < 0.25 and not (isinstance(cfg["method"], dict) and "per" in cfg["method"]):
            c = {"est": "linear", "method": cfg["method"], "forget": 0.01, "scale": cfg["scale"], "share_method": True}
            d = dict(d, y="linear")
        ops, net = world.schedule(rng, d["n"], n_init)
        members.append({"cfg": c, "data": d, "ops": world.cap(ops, 5)})
    return finish(rng, cfg, members, net)


def finish(rng, cfg, members, net):
    inter = []
    for k, m in enumerate(members):
        inter += [k] * len(m["ops"])
    rng.shuffle(inter)
    return {"cfg": cfg, "members": members, "ops": [{"m": k} for k in inter], "mode": rng.choice(["calls", "calls", "threads"]),
            "s": rng.randrange(1 << 30), "p": rng.choice([0.02, 0.1, 0.4]), "net": net}


def simplify(plan):
    for k in range(len(plan["members"])):
        m = plan["members"][k]
        for a, b in (("forget", 0.0), ("method", "ols"), ("eq", None), ("scale", True), ("ic", "aic")):
            if a in m["cfg"] and m["cfg"][a] != b and a != "method":
                ms = list(plan["members"])
                ms[k] = dict(m, cfg=dict(m["cfg"], **{a: b}))
                yield dict(plan, members=ms)
    if plan["mode"] == "threads":
        yield dict(plan, mode="calls")


def warmup():
    ests.warm()


def sorted_cfg(cfg):
    """the same settings with dictionaries in sorted key order"""
    out = {}
    for k, v in cfg.items():
        if isinstance(v, dict) and "per" in v:
            v = {"per": sorted(v["per"], key=lambda a: a[0])}
        if k == "eq" and v is not None:
            v = sorted(v, key=lambda a: a[0])
        out[k] = v
    return out


def picture(o, depth=0):
    """a comparable image of a configuration object, including everything inside it"""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), picture(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(picture(v, depth + 1) for v in o))
    if o is None or isinstance(o, (int, float, str, bool, np.generic)):
        return repr(o)
    if hasattr(o, "__dict__") and depth < 4:
        return (type(o).__name__, picture(dict(vars(o)), depth + 1))
    return type(o).__name__


def execute(plan, ctx):
    add_stats(ctx, plan)
    # the shared objects: built once, every member gets the very same ones
    _, shared = gen.build_kwargs(plan["cfg"])
    members = plan["members"]
    datas = [gen.Data(m["data"]) for m in members]
    objs, kws = [], []
    for m in members:
        cls, kw = gen.build_kwargs(m["cfg"])
        for key in kw:
            same_setting = key in shared and (m["cfg"]["est"] == plan["cfg"]["est"] or key in ("method", "scale_inputs"))
            if same_setting and not (key == "forget" and m["cfg"].get("forget") != plan["cfg"].get("forget")):
                kw[key] = shared[key]
        kws.append(kw)
        objs.append(cls(**kw))
    pics = [picture(dict(kw)) for kw in kws]
    alone = [gen.build(sorted_cfg(m["cfg"])) for m in members]
    results = [[] for _ in members]

    def one(k, j):
        op = members[k]["ops"][j]
        if op["op"] not in ("fit", "update") or (op["op"] == "update" and not hasattr(objs[k], "n_observations_")):
            return ("skip", None)
        try:
            ests.run_op(objs[k], op, datas[k], seed=False)
            r = ("ok", None)
        except Exception as e:  # noqa: BLE001
            r = ("err", type(e).__name__)
        return r + (bits(twin.observe(objs[k], datas[k].X[:4])),)

    if plan["mode"] == "calls":
        pos = [0] * len(members)
        for step, o in enumerate(plan["ops"]):
            k = o["m"]
            ctx.step = step
            if pos[k] < len(members[k]["ops"]):
                results[k].append(one(k, pos[k]))
                pos[k] += 1
    else:
        sched = Sched(plan["s"], plan["p"])
        out = sched.run([lambda k=k: [one(k, j) for j in range(len(members[k]["ops"]))] for k in range(len(members))])
        for k, (st, val) in enumerate(out):
            if st == "exc":
                raise val
            results[k] = val
        ctx.fault("thread_switch", sched.switches)
        ctx.log("switches", sched.switches, tuple(sched.order[:200]))
        ctx.state(tuple(sched.order[:60]))
    n_ok = 0
    for k, m in enumerate(members):
        for j, res in enumerate(results[k]):
            op = m["ops"][j]
            if op["op"] not in ("fit", "update") or (op["op"] == "update" and not hasattr(alone[k], "n_observations_")):
                continue
            try:
                ests.run_op(alone[k], op, datas[k], seed=False)
                r = ("ok", None)
            except Exception as e:  # noqa: BLE001
                r = ("err", type(e).__name__)
            ctx.calls[op["op"]] += 1
            ctx.require(res[:2] == r, "shared-outcome-differs", lambda: f"estimator {k}, call {j} ({op['op']}): {res[:2]} with shared objects, {r} alone")
            b = bits(twin.observe(alone[k], datas[k].X[:4]))
            ctx.log(k, j, b)
            if res[2] != b:
                d = twin.first_diff(twin.observe(objs[k], datas[k].X[:4]), twin.observe(alone[k], datas[k].X[:4])) if j == len(results[k]) - 1 else None
                ctx.fail("shared-model-differs", f"estimator {k} of {len(members)}, call {j} ({op['op']}, mode {plan['mode']}): the model differs from the one learned alone {twin.short(d)}")
            ctx.checks += 1
            n_ok += r[0] == "ok"
    for k, kw in enumerate(kws):
        now = picture(dict(kw))
        if now != pics[k]:
            bad = [n for n in kw if picture(kw[n], 1) != dict(pics[k][1]).get(repr(n))]
            ctx.fail("constructor-object-modified", f"estimator {k}: {bad} changed by fitting and updating")
        ctx.checks += 1
        gp = objs[k].get_params(deep=False)
        for n, v in kw.items():
            ctx.require(gp[n] is v or picture(gp[n]) == picture(v), "get-params-differs", lambda: f"estimator {k}: get_params()[{n!r}] is not what was passed")
    ctx.state(plan["mode"], [m["cfg"]["est"] for m in members], [o["m"] for o in plan["ops"]])
    ctx.nontrivial = len(members) >= 2 and n_ok >= 4
    _ = copy
