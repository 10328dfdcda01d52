"""Rank increases of live sketches, interleaved with updates, merges, crashes
and restarts, against fresh sketches with larger maps."""
import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import gen_sched
from dst.sim import Injection, ProcessCrash

ID = "C08"


def gen(rng, tier):
    refuse = rng.random() < 0.15
    cl = rng.choice(["DG", "SG"])
    cr = cl if rng.random() < 0.7 else rng.choice(["DG", "SG"])
    if refuse:
        x = rng.choice(["TT", "SS"])
        cl, cr = rng.choice([(x, x), (x, cr), (cl, x)])
    kinds = [k for k in M.SUPPORT[cl] if k in M.SUPPORT[cr]]
    shape = M.gen_shape(rng, maxsize=100, dmax=5)
    d = len(shape)
    lo = M.gen_rank(rng, d, 1, 3)
    hi = [x + rng.randint(1, 2) for x in lo]
    left_big = rng.random() < 0.5

    far = rng.choice([5, 12, 30]) if rng.random() < 0.08 else 0

    def bump(r, p):
        return [x + (rng.choice([0, 0, 1, 2]) + rng.randint(0, far) if rng.random() < p else 0) for x in r]

    threads = []
    ends = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        a, b = list(lo), list(hi)  # small and big side
        ops = [{"op": "start", "t": O.any_tensor(rng, shape, kinds, 0.2)}]
        for _ in range(rng.randint(1, 5) + (rng.randint(4, 8) if rng.random() < 0.04 else 0)):
            r = rng.random()
            if r < 0.35:
                ops.append({"op": "add", "t": O.any_tensor(rng, shape, kinds, 0.2), "c": rng.choice([1.0, 1.0, -2.0])})
            elif r < 0.5:
                ops.append({"op": "save"})
            elif r < 0.56:
                ops.append({"op": "mul", "c": rng.choice([2.0, -0.5])})
            else:
                which = rng.choice(["big", "both", "small", "const", "none"])
                na, nb = list(a), list(b)
                if which in ("small", "both"):
                    na = bump(a, 0.8)
                if which in ("big", "both", "small"):
                    nb = bump(b, 0.8) if which != "small" else nb
                    nb = [max(y, x + 1) for x, y in zip(na, nb)]
                if which == "const":
                    na = [max(a) + rng.randint(0, 1)] * (d - 1)
                    nb = [max(max(b), na[0] + 1)] * (d - 1)
                a, b = na, nb
                ops.append({"op": "increase", "left": b if left_big else a, "right": a if left_big else b,
                            "int": which == "const" and rng.random() < 0.5})
        threads.append(ops)
        ends.append((a, b))
    fa = [max(e[0][i] for e in ends) for i in range(d - 1)]
    fb = [max(max(e[1][i] for e in ends), fa[i] + 1) for i in range(d - 1)]
    left, right = (hi, lo) if left_big else (lo, hi)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        faults.append({"task": rng.randrange(len(threads)), "k": rng.choice([rng.randint(1, 80), rng.randint(1, 600), rng.randint(1, 3000)])})
    return {"params": {"left": M.gen_drm(rng, cl, shape, left, False), "right": M.gen_drm(rng, cr, shape, right, True),
                       "refuse": refuse, "final": [fb, fa] if left_big else [fa, fb], "cpu": rng.choice([1, 2, 8]),
                       "shape": shape},
            "threads": threads, "faults": faults, "sched": gen_sched(rng)}


def run(plan, ctx):
    P = plan["params"]
    lspec, rspec = P["left"], P["right"]
    shape = tuple(P["shape"])
    d = len(shape)
    what = f"{lspec['cls']} {lspec['rank']} / {rspec['cls']} {rspec['rank']} shape {shape}"

    def root(sim):
        store, kept, results, trail = {}, [], {}, {}

        def summands(ops, n):
            """Everything streamed by the first n operations, as one tensor."""
            from tt_sketch.tensor import TensorSum

            parts = []
            for o in ops[:n]:
                if o["op"] == "mul":
                    parts = [p * o["c"] for p in parts]
                elif o["op"] in ("start", "add"):
                    parts.append(M.build(o["t"])[0] * o.get("c", 1.0))
            return parts[0] if len(parts) == 1 else TensorSum(parts)

        def check_prefix(old, oldv, new, lr, rr, where):
            """The existing part is kept exactly."""
            p, o = M.comps(new)
            for mu in range(d):
                op = oldv[0][mu]
                ctx.equal(p[mu][: op.shape[0], :, : op.shape[2]], op, "increasing the rank changed the existing part", f"Psi {mu} {where}; {what}")
            for mu in range(d - 1):
                oo = oldv[1][mu]
                ctx.equal(o[mu][: oo.shape[0], : oo.shape[1]], oo, "increasing the rank changed the existing part", f"Omega {mu} {where}; {what}")
            ctx.check(tuple(new.left_rank) == lr and tuple(new.right_rank) == rr, "rank after increase is not the requested one",
                      f"{new.left_rank} {new.right_rank} != {lr} {rr} {where}; {what}")

        def consumer(k):
            ops = plan["threads"][k]
            inc = 0
            while True:
                try:
                    l, r = M.build_drm(lspec), M.build_drm(rspec)
                    stt, pos = store.get(k, (None, 0))
                    hist = []
                    while pos < len(ops):
                        op = ops[pos]
                        kind, where = op["op"], f"consumer {k} op {pos}"
                        if stt is not None:
                            kept.append((stt, M.copy_comps(stt), where))
                        if kind == "start":
                            from tt_sketch.sketch import stream_sketch

                            stt = stream_sketch(M.build(op["t"])[0], tuple(lspec["rank"]), tuple(rspec["rank"]), left_drm=l, right_drm=r)
                        elif kind == "add":
                            stt = stt + M.build(op["t"])[0] * op["c"]
                        elif kind == "mul":
                            stt = stt * op["c"]
                        elif kind == "save":
                            store[k] = (stt, pos + 1)
                            ctx.probe("checkpoint")
                        elif kind == "increase":
                            lr, rr = tuple(op["left"]), tuple(op["right"])
                            t = summands(ops, pos)
                            al, ar = (lr[0], rr[0]) if op["int"] else (lr, rr)
                            if P["refuse"]:
                                ok = False
                                try:
                                    stt.increase_rank(t, al, ar)
                                except ValueError:
                                    ok = True
                                ctx.check(ok, "unsupported rank increase not refused with a value error", f"{where}; {what}")
                                ctx.probe("refused")
                            else:
                                old, oldv = stt, M.copy_comps(stt)
                                stt = stt.increase_rank(t, al, ar)
                                check_prefix(old, oldv, stt, lr, rr, where)
                                ctx.probe("increased")
                        hist.append((pos, stt))
                        pos += 1
                    results[k] = stt
                    trail[k] = hist
                    return
                except ProcessCrash:
                    inc += 1
                    ctx.probe("restart")
                    sim.move(sim.new_node(f"c{k}.{inc}", cpu=P["cpu"], salt=1000 * k + inc))

        tasks = [sim.spawn(consumer, k, name=f"c{k}", node=sim.new_node(f"c{k}", cpu=P["cpu"])) for k in range(len(plan["threads"]))]
        for f in plan["faults"]:
            if f["task"] < len(tasks):
                t = tasks[f["task"]]
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda x, t=t: x is t, name="crash"))
        sim.join(*tasks)
        sim.injections = []
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        for stt, saved, where in kept:
            M.comps_equal(ctx, stt, saved, "operation changed the sketch it started from", f"{where}; {what}")

        cache = {}

        def fresh_maps(lr, rr):
            if (lr, rr) not in cache:
                cache[lr, rr] = (M.maps(M.build_drm(dict(lspec, rank=lr)), shape, ctx, transpose=False),
                                 M.maps(M.build_drm(dict(rspec, rank=rr)), shape, ctx, transpose=True))
            return cache[lr, rr]

        def value(ops, n):
            x = np.zeros(shape)
            xa = np.zeros(shape)
            for o in ops[:n]:
                if o["op"] == "mul":
                    x, xa = x * o["c"], xa * abs(o["c"])
                elif o["op"] in ("start", "add"):
                    c = o.get("c", 1.0)
                    x = x + c * M.build(o["t"])[1]
                    xa = xa + abs(c) * M.absdense(o["t"])
            return x, xa

        # every state against a fresh sketch with the larger maps
        base = fresh_maps(tuple(lspec["rank"]), tuple(rspec["rank"]))
        for k, ops in enumerate(plan["threads"]):
            done = set()
            for pos, stt in trail[k]:
                if id(stt) in done:
                    continue
                done.add(id(stt))
                lr, rr = tuple(int(x) for x in stt.left_rank), tuple(int(x) for x in stt.right_rank)
                fm = fresh_maps(lr, rr)
                x, xa = value(ops, pos + 1)
                M.check_comps(ctx, stt, *M.contract(fm[0], fm[1], x, xa), kind="sketch after rank increases differs from a fresh sketch",
                              detail=f"consumer {k} after op {pos} ranks {lr} {rr}; {what}")
                # the sketch's own maps: grown step by step, same rows
                if not P["refuse"]:
                    for side, drm, fresh, b in (("left", stt.left_drm, fm[0], base[0]), ("right", stt.right_drm, fm[1], base[1])):
                        own = M.maps(drm, shape, ctx, transpose=side == "right")
                        for mu in range(d - 1):
                            ctx.close(own[mu], fresh[mu], "increased map differs from the larger map", f"{side} {mu}; {what}", tol=1e-11, scale=10.0)
                            ctx.close(own[mu][: b[mu].shape[0]], b[mu], "increasing a map changed its rows", f"{side} {mu}; {what}", tol=1e-11, scale=10.0)
        if P["refuse"]:
            return
        # all consumers meet at common ranks and merge
        fl, fr = tuple(P["final"][0]), tuple(P["final"][1])
        total = None
        X, Xa = np.zeros(shape), np.zeros(shape)
        for k, ops in enumerate(plan["threads"]):
            stt = results[k].increase_rank(summands(ops, len(ops)), fl, fr)
            total = stt.sketch_ if total is None else total + stt.sketch_
            x, xa = value(ops, len(ops))
            X, Xa = X + x, Xa + xa
        fm = fresh_maps(fl, fr)
        M.check_comps(ctx, total, *M.contract(fm[0], fm[1], X, Xa), kind="merge of increased sketches differs from a fresh sketch", detail=f"final {fl} {fr}; {what}")

    ctx.run_sim(root, cpu=P["cpu"])
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0


def simplify(plan):
    import copy

    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            p["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in p["faults"] if f["task"] != i]
            yield p
        for j, o in enumerate(plan["threads"][i]):
            if o.get("t", {}).get("kind") == "sum":
                p = copy.deepcopy(plan)
                p["threads"][i][j]["t"] = o["t"]["parts"][0]
                yield p
