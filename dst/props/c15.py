"""Sketches and maps that are saved, restored (also in another interpreter),
copied and transposed in the middle of a stream."""
import copy
import pickle

import numpy as np

from dst import child
from dst import model as M
from dst import optable as O
from dst.harness import gen_sched
from dst.sim import Injection, ProcessCrash, Sim

ID = "C15"
HOPS = (4321,)


def gen(rng, tier):
    cl = rng.choice(M.DRMS)
    cr = cl if rng.random() < 0.75 else rng.choice(M.DRMS)
    kinds = [k for k in M.SUPPORT[cl] if k in M.SUPPORT[cr]]
    shape = M.gen_shape(rng, maxsize=90, dmax=5)
    d = len(shape)
    lo = M.gen_rank(rng, d, 1, 3)
    hi = [x + rng.randint(1, 2) for x in lo]
    left_big = rng.random() < 0.5
    left, right = (hi, lo) if left_big else (lo, hi)
    hop = 0.12
    far = rng.randint(4, 20) if rng.random() < 0.06 else 0
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = [{"op": "start", "t": O.any_tensor(rng, shape, kinds, 0.15)}]
        for _ in range(rng.randint(2, 7) + (rng.randint(5, 10) if rng.random() < 0.04 else 0)):
            r = rng.random()
            if r < 0.3:
                ops.append({"op": "add", "t": O.any_tensor(rng, shape, kinds, 0.15), "sub": rng.random() < 0.2})
            elif r < 0.5:
                ops.append({"op": "T", "twice": rng.random() < 0.25})
            elif r < 0.72:
                ops.append({"op": "copy", "how": rng.choice(["pickle", "pickle", "deepcopy"]),
                            "spoil": rng.choice([None, "old", "old", "new"]), "proto": rng.choice([2, 4, 5])})
            elif r < 0.72 + hop:
                ops.append({"op": "hop", "cpu": rng.choice([1, 3, 64]), "salt": rng.getrandbits(20),
                            "t": rng.choice([None, O.any_tensor(rng, shape, kinds, 0.1)]), "T": rng.random() < 0.3})
            elif r < 0.9:
                ops.append({"op": "save"})
            else:
                ops.append({"op": "increase", "big": [rng.randint(0, 2) + far for _ in lo], "small": [rng.randint(0, 1) for _ in lo]})
        ops.append({"op": "add", "t": O.any_tensor(rng, shape, kinds, 0.15), "sub": False})
        threads.append(ops)
    mops = []
    for _ in range(rng.randint(0, 5)):
        k = rng.choice(["T", "T", "pickle", "deepcopy", "hop", "slice", "increase", "use"])
        mops.append({"op": k, "a": rng.random(), "b": rng.random(), "r": [rng.random() for _ in range(8)], "cpu": rng.choice([1, 3, 64])})
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        faults.append({"task": rng.randrange(len(threads)), "k": rng.choice([rng.randint(1, 80), rng.randint(1, 600), rng.randint(1, 3000)])})
    return {"params": {"left": M.gen_drm(rng, cl, shape, left, False), "right": M.gen_drm(rng, cr, shape, right, True),
                       "shape": shape, "cpu": rng.choice([1, 2, 8]), "mside": rng.choice(["left", "right"])},
            "threads": threads, "ops": mops, "faults": faults, "sched": gen_sched(rng)}


def flip(maps):
    """Maps of the transposed map, in mode order."""
    return [m.transpose((0,) + tuple(range(m.ndim - 1, 0, -1))) for m in maps[::-1]]


def serve(arg):
    """In the other interpreter: restore, continue, save."""
    blob, cpu, salt, todo = arg
    s = Sim({"mode": "none"}, entropy_seed=1)
    s.nodes[0].cpu, s.nodes[0].salt = cpu, salt

    def go():
        x = pickle.loads(blob)
        for what, v in todo:
            if what == "add":
                x = x + M.build(v[0])[0].T if v[1] else x + M.build(v[0])[0]
            elif what == "T":
                x = x.T
            elif what == "slice":
                x = x.slice(*v)
            elif what == "maps":
                return M.maps(x, v[0], transpose=v[1])
        return pickle.dumps(x)

    return s.run(go)


def spoil(s):
    """Ruin everything the sketch owns, in place."""
    for a in list(s.Psi_cores) + list(s.Omega_mats):
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = np.nan if a.dtype.kind == "f" else 99
    s.sketch_.Psi_cores.reverse()
    for drm in (s.left_drm, s.right_drm):
        for v in vars(drm).values():
            if isinstance(v, list):
                for a in v:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = np.nan if a.dtype.kind == "f" else 99
        drm.seed = 12345


def run(plan, ctx):
    P = plan["params"]
    lspec, rspec = P["left"], P["right"]
    shape = tuple(P["shape"])
    d = len(shape)
    what = f"{lspec['cls']} {lspec['rank']} / {rspec['cls']} {rspec['rank']} shape {shape}"
    can_inc = lspec["cls"] in ("DG", "SG") and rspec["cls"] in ("DG", "SG")

    def root(sim):
        store, trail = {}, []
        fresh = {}

        def maps_of(lr, rr):
            if (lr, rr) not in fresh:
                fresh[lr, rr] = (M.maps(M.build_drm(dict(lspec, rank=lr)), shape, ctx, transpose=False),
                                 M.maps(M.build_drm(dict(rspec, rank=rr)), shape, ctx, transpose=True))
            return fresh[lr, rr]

        def dup(stt, op):
            if op["how"] == "pickle":
                return pickle.loads(pickle.dumps(stt, protocol=op["proto"]))
            return copy.deepcopy(stt)

        def consumer(k):
            ops = plan["threads"][k]
            inc = 0
            while True:
                try:
                    sims = []
                    if k in store:
                        blob, pos, fl, lr, rr = store[k]
                        stt = pickle.loads(blob)
                        l = r = None
                    else:
                        stt, pos, fl, lr, rr = None, 0, False, tuple(lspec["rank"]), tuple(rspec["rank"])
                        l, r = M.build_drm(lspec), M.build_drm(rspec)
                    while pos < len(ops):
                        op = ops[pos]
                        kind, where = op["op"], f"consumer {k} op {pos}"
                        if kind == "start":
                            stt = O.build_stt({"left": lspec, "right": rspec}, M.build(op["t"])[0], l, r)
                        elif kind == "add":
                            t = M.build(op["t"])[0]
                            t = t.T if fl else t
                            stt = stt - t if op["sub"] else stt + t
                        elif kind == "T":
                            before = M.copy_comps(stt)
                            new = stt.T
                            M.comps_equal(ctx, stt, before, "transposing changed the sketch", where + what)
                            M.check_comps(ctx, new, [p.transpose(2, 1, 0) for p in before[0][::-1]], [o.T for o in before[1][::-1]],
                                          [float(np.max(np.abs(p), initial=0)) for p in before[0][::-1]],
                                          [float(np.max(np.abs(o), initial=0)) for o in before[1][::-1]],
                                          "transpose of a sketch is not the transpose of its components", where + what, 1e-13)
                            if op["twice"]:
                                new = new.T
                                M.comps_equal(ctx, new, before, "transposing twice is not the identity", where + what)
                            else:
                                fl = not fl
                            stt = new
                        elif kind == "copy":
                            new = dup(stt, op)
                            M.comps_equal(ctx, new, M.copy_comps(stt), "copy differs from the original", f"{op['how']} {where} {what}")
                            if op["spoil"] == "old":
                                sims_old = stt
                                stt = new
                                spoil(sims_old)
                                ctx.probe("original spoiled")
                            elif op["spoil"] == "new":
                                spoil(new)
                                ctx.probe("copy spoiled")
                            else:
                                stt = new
                        elif kind == "hop":
                            todo = []
                            if op["t"]:
                                todo.append(("add", (op["t"], fl)))
                            if op["T"]:
                                todo.append(("T", None))
                                fl = not fl
                            stt = pickle.loads(child.ask(HOPS[0], "dst.props.c15", "serve", (pickle.dumps(stt), op["cpu"], op["salt"], todo)))
                            ctx.probe("continued in another interpreter")
                            ctx.fault("process-change")
                        elif kind == "save":
                            store[k] = (pickle.dumps(stt), pos + 1, fl, lr, rr)
                            ctx.probe("checkpoint")
                        elif kind == "increase" and can_inc:
                            big_left = all(a > b for a, b in zip(lr, rr))
                            ea, eb = (op["big"], op["small"]) if big_left else (op["small"], op["big"])
                            nl = tuple(a + e for a, e in zip(lr, ea))
                            nr = tuple(a + e for a, e in zip(rr, eb))
                            if big_left:
                                nl = tuple(max(a, b + 1) for a, b in zip(nl, nr))
                            else:
                                nr = tuple(max(b, a + 1) for a, b in zip(nl, nr))
                            from tt_sketch.tensor import TensorSum

                            parts = []
                            for o in ops[:pos]:
                                if o["op"] in ("start", "add") or (o["op"] == "hop" and o["t"]):
                                    t = M.build(o["t"])[0]
                                    t = t.T if fl else t
                                    parts.append(-t if o.get("sub") else t)
                            lr, rr = nl, nr
                            a, b = (rr[::-1], lr[::-1]) if fl else (lr, rr)
                            stt = stt.increase_rank(TensorSum(parts), a, b)
                            ctx.probe("increased")
                        pos += 1
                        trail.append((k, pos, M.copy_comps(stt), fl, lr, rr, tuple(stt.left_rank), tuple(stt.right_rank), tuple(stt.shape)))
                    return
                except ProcessCrash:
                    inc += 1
                    ctx.probe("restart")
                    sim.move(sim.new_node(f"c{k}.{inc}", cpu=1 + inc, salt=1000 * k + inc))

        tasks = [sim.spawn(consumer, k, name=f"c{k}", node=sim.new_node(f"c{k}", cpu=P["cpu"])) for k in range(len(plan["threads"]))]
        for f in plan["faults"]:
            if f["task"] < len(tasks):
                t = tasks[f["task"]]
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda x, t=t: x is t, name="crash"))
        sim.join(*tasks)
        sim.injections = []
        for t in tasks:
            if t.exc is not None:
                raise t.exc

        memo = {}
        for k, n, comps, fl, lr, rr, glr, grr, gshape in trail:
            x = np.zeros(shape)
            xa = np.zeros(shape)
            for o in plan["threads"][k][:n]:
                if o["op"] in ("start", "add") or (o["op"] == "hop" and o["t"]):
                    x = x + (-1 if o.get("sub") else 1) * M.build(o["t"])[1]
                    xa = xa + M.absdense(o["t"])
            key = (k, n, lr, rr)
            if key not in memo:
                fm = maps_of(lr, rr)
                memo[key] = M.contract(fm[0], fm[1], x, xa)
            Ps, Os, ps, os_ = memo[key]
            wl, wr, ws = lr, rr, shape
            if fl:
                Ps = [p.transpose(2, 1, 0) for p in Ps[::-1]]
                Os = [o.T for o in Os[::-1]]
                ps, os_ = ps[::-1], os_[::-1]
                wl, wr, ws = rr[::-1], lr[::-1], shape[::-1]

            class S:
                Psi_cores, Omega_mats = comps

            o = plan["threads"][k][n - 1]["op"]
            ctx.check((glr, grr, gshape) == (wl, wr, ws), "ranks or shape wrong after " + o, f"{(glr, grr, gshape)} != {(wl, wr, ws)}; {what}")
            M.check_comps(ctx, S, Ps, Os, ps, os_, kind=f"sketch differs from the uninterrupted stream after {o}",
                          detail=f"consumer {k} op {n - 1} transposed={fl}; {what}")

        # one map by itself
        spec = lspec if P["mside"] == "left" else rspec
        left = P["mside"] == "left"
        drm = M.build_drm(spec)
        cur = [m for m in (maps_of(tuple(lspec["rank"]), tuple(rspec["rank"]))[0 if left else 1])]
        sh, rank, sliced = shape, tuple(spec["rank"]), False
        hist = []
        for op in plan["ops"]:
            k = op["op"]
            hist.append(k)
            kept, keptm, kleft, ksh = drm, cur, left, sh
            if k == "T":
                drm = drm.T
                cur, left, sh, rank = flip(cur), not left, sh[::-1], rank[::-1]
            elif k == "pickle":
                drm = pickle.loads(pickle.dumps(drm))
            elif k == "deepcopy":
                drm = copy.deepcopy(drm)
            elif k == "hop":
                got = child.ask(HOPS[0], "dst.props.c15", "serve", (pickle.dumps(drm), op["cpu"], 99, [("maps", (sh, not left))]))
                for mu, (a, b) in enumerate(zip(got, cur)):
                    ctx.close(a, b, "map differs in another process", f"{hist} mode {mu} {spec['cls']} {spec['rank']}", scale=10.0, tol=1e-10)
                ctx.probe("map used in another interpreter")
            elif k == "slice" and not sliced:
                lo = tuple(int(op["r"][i % 8] * r) for i, r in enumerate(rank))
                hi = tuple(a + 1 + int(op["r"][(i + 4) % 8] * (r - a)) for i, (a, r) in enumerate(zip(lo, rank)))
                hi = tuple(min(a, r) for a, r in zip(hi, rank))
                drm = drm.slice(lo, hi)
                cur = [c[a:b] for c, a, b in zip(cur, lo, hi)]
                rank = tuple(b - a for a, b in zip(lo, hi))
                sliced = True
            elif k == "increase" and not sliced and spec["cls"] in ("DG", "SG"):
                nr = tuple(r + int(op["r"][i % 8] * 3) for i, r in enumerate(rank))
                drm = drm.increase_rank(nr)
                rank = nr
                orig_left = P["mside"] == "left"
                full = M.maps(M.build_drm(dict(spec, rank=nr if left == orig_left else nr[::-1])), shape, ctx, transpose=not orig_left)
                cur = full if left == orig_left else flip(full)
            for dd, mm, ll, ss, name in ((drm, cur, left, sh, "map"), (kept, keptm, kleft, ksh, "original map")):
                got = M.maps(dd, ss, ctx, transpose=not ll)
                for mu, (a, b) in enumerate(zip(got, mm)):
                    ctx.close(a, b, f"{name} differs after {k}", f"{hist} mode {mu} {spec['cls']} {spec['rank']} shape {shape}", scale=10.0, tol=1e-10)
            ctx.check(bool(drm.transpose) == (not left) and tuple(drm.shape) == sh, f"shape or side of map wrong after {k}",
                      f"{drm.transpose} {drm.shape} {hist} {spec['cls']} {spec['rank']}")
            ctx.probe("map " + k)

    ctx.run_sim(root, cpu=P["cpu"])
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0 or any(o["op"] in ("T", "copy", "hop") for t in plan["threads"] for o in t)


def simplify(plan):
    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            p["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in p["faults"] if f["task"] != i]
            yield p
