"""The simulated deployment around an estimator.

A data source emits rows over simulated time; a lossy, duplicating, reordering network with
partitions carries them; a trainer polls its inbox, may stall, and turns what it finds into fit and
update calls; clients read; a checkpointer and fault injector act in between.  A discrete-event loop
driven by one seeded generator produces the schedule of operations; executing that schedule against
the real estimator is a pure function of it.
"""
import heapq


def schedule(rng, n_rows, n_init, *, reads=0.0, rejects=0.0, faults=0.0, ckpts=0.0, crashes=0.0,
             max_batch=None, first="fit", loss=None, style=None, exc_kinds=(), reject_kinds=()):
    """Returns (ops, stats). Ops are dicts with simulated time 't'."""
    style = style or rng.choice(["steady", "bursty", "single", "mixed", "mixed"] + ["flood"] * (8 if n_rows - n_init > 80 else 0))
    loss = rng.choice([0.0, 0.0, 0.1, 0.3]) if loss is None else loss
    dup = rng.choice([0.0, 0.0, 0.05, 0.15])
    jitter = rng.choice([0.0, 0.5, 3.0])
    poll = {"steady": 4.0, "bursty": 12.0, "single": 0.05, "mixed": 3.0, "flood": 150.0}[style]
    stats = {"net_loss": 0, "net_dup": 0, "net_reorder": 0, "partition": 0, "stall": 0, "burst": 0}
    q, seq = [], 0

    def push(t, *ev):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (t, seq) + ev)

    t = 0.0
    part_until = -1.0
    for i in range(n_rows):
        t += rng.expovariate(1.0)
        send = t
        while rng.random() < loss:
            stats["net_loss"] += 1
            send += 2.0  # retransmission timer
        if rng.random() < 0.03 and part_until < t:
            part_until = t + rng.uniform(3, 15)
            stats["partition"] += 1
        arrive = max(send, part_until if send < part_until else 0) + 0.1 + rng.uniform(0, jitter)
        push(arrive, "row", i)
        if rng.random() < dup:
            stats["net_dup"] += 1
            push(arrive + rng.uniform(0.1, 5.0), "row", i)
    end = t + 60
    push(0.0, "poll")
    ops, inbox, last = [], [], -1
    fitted = False
    while q:
        now, _, kind, *arg = heapq.heappop(q)
        if kind == "row":
            if arg[0] < last:
                stats["net_reorder"] += 1
            last = max(last, arg[0])
            inbox.append(arg[0])
        elif kind == "poll":
            need = n_init if not fitted else 1
            if len(inbox) >= need:
                k = len(inbox)
                if fitted and style in ("single",):
                    k = 1
                elif fitted and style == "mixed" and rng.random() < 0.4:
                    k = 1
                elif max_batch and fitted:
                    k = min(k, max_batch)
                if not fitted:
                    k = n_init
                rows, inbox = inbox[:k], inbox[k:]
                if k > 8 and fitted:
                    stats["burst"] += 1
                if rng.random() < rejects and reject_kinds:
                    ops.append({"t": now, "op": "reject", "kind": rng.choice(list(reject_kinds)), "rows": rows,
                                "s": rng.randrange(1 << 30)})
                if rng.random() < faults and exc_kinds:
                    ops.append({"t": now, "op": "fail", "exc": rng.choice(list(exc_kinds)), "u": rng.random(),
                                "rows": rows, "call": "update" if fitted else first})
                ops.append({"t": now, "op": "update" if fitted else first, "rows": rows})
                fitted = True
                if rng.random() < ckpts:
                    ops.append({"t": now, "op": "ckpt", "sync": rng.random() < 0.8})
                if rng.random() < crashes:
                    ops.append({"t": now, "op": "crash", "tear": rng.random()})
                if rng.random() < reads:
                    ops.append({"t": now, "op": "read", "s": rng.randrange(1 << 30)})
            stall = 0.0
            if rng.random() < 0.05:
                stall = rng.uniform(5, 20)
                stats["stall"] += 1
            if now < end or inbox:
                nxt = now + max(0.02, rng.expovariate(1.0 / poll)) + stall
                if not [e for e in q if e[2] == "row"] and not inbox:
                    break
                if not fitted and len(inbox) < n_init and not [e for e in q if e[2] == "row"]:
                    break
                push(nxt, "poll")
    return ops, stats


def cap(ops, k, rng=None):
    """Keep at most k operations (bounded runs); given a generator, now and then a long history."""
    return ops[:k if rng is None or rng.random() >= 0.05 else 5 * k]
