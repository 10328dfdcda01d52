"""Streaming: updates, scalings, transpositions and merges on several machines,
with crashes and restarts from saved sketches."""
import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import gen_sched
from dst.sim import Injection, ProcessCrash

ID = "C04"


def gen(rng, tier):
    big = tier == "thorough" and rng.random() < 0.3
    s = O.stt_spec(rng, maxsize=200 if big else 120)
    kinds = M.SUPPORT[s["cls"]]
    threads = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 6 if big else 4) + (rng.randint(8, 16) if rng.random() < 0.04 else 0)):
            r = rng.random()
            if r < 0.55:
                ops.append({"op": "add", "t": O.any_tensor(rng, s["shape"], kinds, 0.2),
                            "sub": rng.random() < 0.25, "c": rng.choice([1.0, 1.0, 2.0, -0.5])})
            elif r < 0.7:
                ops.append({"op": "mul", "c": rng.choice([2.0, -1.0, 0.5, 0.0, -3.0]), "how": rng.choice(["mul", "rmul", "div", "neg"])})
            elif r < 0.82:
                ops.append({"op": "T"})
            elif r < 0.92:
                ops.append({"op": "save"})
            else:
                ops.append({"op": "merge-part", "t": O.any_tensor(rng, s["shape"], kinds, 0.2),
                            "how": rng.choice(["left", "right", "sub", "scaled"])})
        threads.append([{"op": "start", "t": O.any_tensor(rng, s["shape"], kinds, 0.2)}] + ops)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        faults.append({"task": rng.randrange(len(threads)), "k": rng.choice([rng.randint(1, 80), rng.randint(1, 600), rng.randint(1, 3000)])})
    return {"params": {"s": s, "merge": [rng.random() for _ in range(8)], "cpu": rng.choice([1, 2, 5, 8]),
                       "mhow": [rng.choice(["add", "radd", "T"]) for _ in range(8)]},
            "threads": threads, "faults": faults, "sched": gen_sched(rng)}


def run(plan, ctx):
    P = plan["params"]
    s = P["s"]
    lspec, rspec = s["left"], s["right"]
    what = f"{s['cls']} shape {s['shape']} left {lspec['rank']} right {rspec['rank']}"

    def root(sim):
        store = {}     # durable: saved sketches per consumer
        kept = []      # every sketch an update started from, with its values
        results = {}
        done_ops = {}

        def model(ops):
            """Dense value and rounding scale after ops."""
            x = xa = None
            for op in ops:
                k = op["op"]
                if k in ("start", "add", "merge-part"):
                    y = M.build(op["t"])[1]
                    ya = M.absdense(op["t"])
                    c = 1.0
                    if k == "add":
                        c = op["c"] * (-1 if op["sub"] else 1)
                    elif k == "merge-part":
                        c = {"sub": -1.0, "scaled": 0.5}.get(op["how"], 1.0)
                    x = c * y if x is None else x + c * y
                    xa = abs(c) * ya if xa is None else xa + abs(c) * ya
                elif k == "mul":
                    c = -1.0 if op["how"] == "neg" else op["c"]
                    if op["how"] == "div":
                        c = 1.0 / c if c else 1.0
                    x, xa = x * c, xa * max(abs(c), 1e-3)
            return x, xa

        def consumer(k):
            ops = plan["threads"][k]
            incarnation = 0
            while True:
                try:
                    l, r = M.build_drm(lspec), M.build_drm(rspec)
                    stt, pos, flip = store.get(k, (None, 0, False))
                    while pos < len(ops):
                        op = ops[pos]
                        kind = op["op"]
                        if kind in ("start", "add", "merge-part"):
                            t = M.build(op["t"])[0]
                            if flip:
                                t = t.T
                        if stt is not None:
                            kept.append((stt, M.copy_comps(stt), f"consumer {k} op {pos} {kind}"))
                        if kind == "start":
                            stt = O.build_stt(s, t, l, r)
                        elif kind == "add":
                            if op["c"] != 1.0:
                                t = t * op["c"]
                            stt = stt - t if op["sub"] else stt + t
                        elif kind == "mul":
                            h, c = op["how"], op["c"]
                            if h == "neg":
                                stt = -stt
                            elif h == "rmul":
                                stt = c * stt
                            elif h == "div":
                                stt = stt / c if c else stt
                            else:
                                stt = stt * c
                        elif kind == "T":
                            stt, flip = stt.T, not flip
                        elif kind == "save":
                            store[k] = (stt, pos + 1, flip)
                            ctx.probe("checkpoint")
                        elif kind == "merge-part":
                            part = O.build_stt(s, t if not flip else t.T, l, r)
                            if flip:
                                part = part.T
                            a, b = stt.sketch_, part.sketch_
                            kept.append((part, M.copy_comps(part), f"part of consumer {k} op {pos}"))
                            c = {"left": lambda: a + b, "right": lambda: b + a, "sub": lambda: a - b,
                                 "scaled": lambda: a + b * 0.5}[op["how"]]()
                            stt = type(stt)(c, stt.left_drm, stt.right_drm)
                        pos += 1
                    results[k] = (stt, flip)
                    return
                except ProcessCrash:
                    incarnation += 1
                    ctx.probe("restart")
                    sim.move(sim.new_node(f"c{k}.{incarnation}", cpu=P["cpu"], salt=1000 * k + incarnation))

        tasks = {}
        for k in range(len(plan["threads"])):
            node = sim.new_node(f"c{k}", cpu=P["cpu"] if k else 8)
            tasks[k] = sim.spawn(consumer, k, name=f"c{k}", node=node)
        for f in plan["faults"]:
            t = tasks.get(f["task"])
            if t is not None:
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda x, t=t: x is t, name="crash"))
        sim.join(*tasks.values())
        sim.injections = []
        for t in tasks.values():
            if t.exc is not None:
                raise t.exc
        for stt, saved, where in kept:
            M.comps_equal(ctx, stt, saved, "update changed the sketch it started from", f"{where}; {what}")
        # each consumer against the definition
        X = Xa = None
        pool = []
        L = M.maps(M.build_drm(lspec), s["shape"], ctx)
        R = M.maps(M.build_drm(rspec), s["shape"], ctx)
        for k, ops in enumerate(plan["threads"]):
            x, xa = model(ops)
            stt, flip = results[k]
            if flip:
                stt = stt.T
            exp = M.contract(L, R, x, xa)
            M.check_comps(ctx, stt, *exp, kind="streamed sketch differs from the sketch of the total",
                          detail=f"consumer {k} ops {[o['op'] for o in ops]}; {what}")
            ctx.check(tuple(stt.left_rank) == tuple(lspec["rank"]) and tuple(stt.right_rank) == tuple(rspec["rank"]),
                      "ranks of the sketch changed", what)
            X = x if X is None else X + x
            Xa = xa if Xa is None else Xa + xa
            pool.append(stt)
        # merge in a random tree
        cont = [p.sketch_ for p in pool]
        saved = [M.copy_comps(c) for c in cont]
        orig = list(cont)
        n = 0
        while len(cont) > 1:
            i = int(P["merge"][n % 8] * len(cont))
            a = cont.pop(i)
            b = cont.pop(int(P["merge"][(n + 3) % 8] * len(cont)))
            how = P["mhow"][n % 8]
            cont.append((a.T + b.T).T if how == "T" else a + b if how == "add" else b + a)
            n += 1
            ctx.probe("merged")
        exp = M.contract(L, R, X, Xa)
        M.check_comps(ctx, cont[0], *exp, kind="merged sketch differs from the sketch of the total", detail=what)
        for c, sv in zip(orig, saved):
            M.comps_equal(ctx, c, sv, "merging changed a sketch", what)
        # one-shot sketches of the total
        parts = []
        for k, ops in enumerate(plan["threads"]):
            if all(o["op"] in ("start", "add", "save", "T") for o in ops):
                for o in ops:
                    if o["op"] == "start":
                        parts.append(M.build(o["t"])[0])
                    elif o["op"] == "add":
                        parts.append(M.build(o["t"])[0] * (o["c"] * (-1 if o["sub"] else 1)))
        if parts and len(parts) == sum(1 for ops in plan["threads"] for o in ops if o["op"] in ("start", "add", "mul", "merge-part")):
            from tt_sketch.tensor import TensorSum

            ctx.probe("one-shot")
            one = O.build_stt(s, TensorSum(parts))
            M.check_comps(ctx, one, *exp, kind="one-shot sketch of the sum differs from its definition", detail=what)

    ctx.run_sim(root, cpu=P["cpu"])
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0


def simplify(plan):
    import copy

    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            p["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in p["faults"] if f["task"] != i]
            yield p
