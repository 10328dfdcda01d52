"""Random generation is all-or-nothing under worker, thread-start and
allocation failures."""
import gc
import time

import numpy as np

from dst.harness import gen_sched
from dst.sim import Injection, SimKill, Stall

ID = "C03"
EXC = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "OSError": OSError,
       "KeyboardInterrupt": KeyboardInterrupt, "FloatingPointError": FloatingPointError}


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.15:
            shape = rng.choice([[0], [1], [2], [0, 3], [1, 1], [3, 0, 2]])
        elif r < 0.6:
            shape = [rng.randint(1, 12) for _ in range(rng.randint(1, 3))]
        else:
            shape = [rng.randint(1, 40), rng.randint(1, 30)]
        if rng.random() < 0.04:
            shape = rng.choice([[rng.randint(10**4, 10**5)], [rng.randint(10**5, 3 * 10**5)], [rng.randint(1000, 1300), rng.randint(1000, 1300)]])
        op = {"shape": shape, "seed": rng.choice([None, rng.getrandbits(31)]), "fault": None,
              "what": rng.choice(["normal"] * 6 + ["tt", "cp", "tucker", "dense"]) if np.prod(shape) < 5000 else "normal"}
        if rng.random() < 0.65:
            f = rng.choice(["worker", "worker", "caller", "start"])
            op["fault"] = {"kind": f, "k": rng.choice([rng.randint(1, 6), rng.randint(1, 30)]) if f != "caller" else rng.randint(1, 90),
                           "exc": rng.choice(sorted(EXC)), "many": rng.random() < 0.3}
            if f == "start":
                op["fault"]["k"] = rng.randint(1, 5)
        if rng.random() < 0.3:  # slow workers
            op["stalls"] = [[rng.randint(1, 25), rng.choice([0.5, 20.0, 400.0, 1e4, 1e6])] for _ in range(rng.choice([1, 1, 2, 4]))]
        ops.append(op)
    return {"params": {"cpu": rng.choice([1, 2, 3, 4, 7, 8, 16, 64]), "threads": rng.choice([None, None, None, 1, 2, 5])},
            "ops": ops, "sched": gen_sched(rng)}


def make(op):
    from tt_sketch import tensor as t
    from tt_sketch.utils import random_normal

    shape, seed, w = tuple(op["shape"]), op["seed"], op["what"]
    if w == "normal" or 0 in shape or len(shape) < 2:
        return [random_normal(shape, seed=seed)]
    if w == "dense":
        return [t.DenseTensor.random(shape).data]
    if w == "tt":
        return list(t.TensorTrain.random(shape, 2, seed=seed).cores)
    if w == "cp":
        return list(t.CPTensor.random(shape, 2, seed=seed).cores)
    x = t.TuckerTensor.random(shape, 2, seed=seed)
    return list(x.factors) + [x.core]


def complete(ctx, op, arrs, what):
    for a in arrs:
        ctx.check(isinstance(a, np.ndarray), "no array returned", what)
        ctx.check(bool(np.all(np.isfinite(a))), "array with unset entries returned",
                  f"{what}: {int(np.sum(~np.isfinite(a)))} of {a.size} entries not drawn, shape {a.shape}")
    if len(arrs) == 1:
        a = arrs[0]
        ctx.check(a.shape == tuple(op["shape"]), "wrong shape returned", f"{a.shape} for {op['shape']}")
        ctx.check(len(np.unique(a)) == a.size, "entries repeated within one array", f"shape {a.shape}")
        if a.size >= 3:
            ctx.check(float(np.max(np.abs(a))) < 12, "entries are not normal draws", "")


def run(plan, ctx):
    P = plan["params"]

    def fault_free(s):
        return [make(op) for op in plan["ops"]]

    saved = dict(plan["sched"])
    # reference: no faults, plain schedule, same machine
    from dst.harness import Ctx

    ref_ctx = Ctx({"sched": {"mode": "none"}, "entropy": plan.get("entropy", 0)})
    ref = ref_ctx.run_sim(fault_free, cpu=P["cpu"], max_steps=1000000)

    def root(s):
        me = s.current
        for n, op in enumerate(plan["ops"]):
            f = op["fault"]
            inj, starts = None, [0]
            s.thread_fail = None
            s.injections = []
            if f:
                if f["kind"] == "start":
                    def fail(t, f=f, starts=starts):
                        starts[0] += 1
                        return starts[0] == f["k"] or (f["many"] and starts[0] > f["k"])
                    s.thread_fail = fail
                else:
                    who = (lambda t: t is not me) if f["kind"] == "worker" else (lambda t: t is me)
                    inj = [Injection(f["k"], EXC[f["exc"]], tasks=who)]
                    if f["many"]:
                        inj += [Injection(f["k"] + j, EXC[f["exc"]], tasks=who) for j in range(1, 12)]
                    s.injections = inj
            for k, sec in op.get("stalls", []):
                s.injections = s.injections + [Stall(k, sec, tasks=lambda t: t is not me)]
            before = dict(s.fault_counts)
            err, out = None, None
            try:
                out = [a.copy() for a in make(op)]  # as it is when the call returns
            except SimKill:
                raise
            except BaseException as e:  # noqa
                err = type(e).__name__
            if op.get("stalls"):
                time.sleep(1e7)
            gc.collect()
            # remaining worker points may still consume injections
            idle = s.yield_until(lambda: all(t.state == "done" or t is me for t in s.tasks))
            gc.collect()
            idle = s.yield_until(lambda: all(t.state == "done" or t is me for t in s.tasks))
            fired = any(v > before.get(k, 0) for k, v in s.fault_counts.items()
                        if k.startswith("exception:") or k == "thread-start-failure")
            s.injections, s.thread_fail = [], None
            ctx.event("op", n, err, fired)
            what = f"op {n} {op['what']} shape {op['shape']} cpu {P['cpu']} fault {f}"
            if err is None:
                complete(ctx, op, out, what)
                if op["seed"] is not None and op["what"] != "dense":
                    for a, b in zip(out, ref[n]):
                        ctx.equal(a, b, "seeded array depends on failures or schedule", what)
                ctx.probe("completed")
                if fired:
                    ctx.probe("completed despite fault")
            else:
                ctx.check(fired, "error without any failure", f"{err}; {what}")
                ctx.probe("raised")
                # the caller is free to go on: retry must work
                again = make(op)
                complete(ctx, op, again, "retry of " + what)
                if op["seed"] is not None and op["what"] != "dense":
                    for a, b in zip(again, ref[n]):
                        ctx.equal(a, b, "retry after failure differs", what)
                again = None
                gc.collect()
            s.yield_until(lambda: all(t.state == "done" or t is me for t in s.tasks))
            gc.collect()
            s.yield_until(lambda: all(t.state == "done" or t is me for t in s.tasks))
            left = [t.id for t in s.tasks if t.state != "done" and t is not me]
            ctx.check(not left, "worker threads left behind", f"{len(left)} after {what}")

    ctx.run_sim(root, cpu=P["cpu"], max_steps=1000000)
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0
