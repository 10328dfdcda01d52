"""Blocked sketches on a simulated cluster: a coordinator hands out blocks over
a lossy network to workers that crash, restart and answer twice."""
import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import gen_sched
from dst.net import Net, gen_faults
from dst.sim import Injection, ProcessCrash

ID = "C07"


def cuts(rng, rank, n):
    """n slices: n+1 boundary tuples from zero to rank, per mode."""
    per = []
    for r in rank:
        if rng.random() < 0.75 and r >= n:
            c = sorted(rng.sample(range(1, r), n - 1))
        else:
            c = sorted(rng.randint(0, r) for _ in range(n - 1))
        per.append([0] + c + [r])
    return [[p[i] for p in per] for i in range(n + 1)]


def nested(rng, rank):
    out = []
    lo, hi = [0] * len(rank), list(rank)
    for _ in range(2):
        lo = [rng.randint(a, b - 1) for a, b in zip(lo, hi)]
        hi = [rng.randint(a + 1, b) for a, b in zip(lo, hi)]
        out.append([list(lo), list(hi)])
    return out


def gen(rng, tier):
    cl = rng.choice(M.DRMS)
    cr = cl if rng.random() < 0.75 else rng.choice(M.DRMS)
    kinds = [k for k in M.SUPPORT[cl] if k in M.SUPPORT[cr]]
    shape = M.gen_shape(rng, maxsize=90, dmax=5)
    d = len(shape)
    top = rng.choice([[5, 5]] * 11 + [[14, 5], [5, 14]])
    lr, rr = M.gen_rank(rng, d, 1, top[0]), M.gen_rank(rng, d, 1, top[1])
    nl, nr = (rng.randint(1, 3) if t == 5 else rng.randint(4, 13) for t in top)
    nw = rng.randint(1, 4)
    faults = gen_faults(rng, [f"w{i}" for i in range(nw)])
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({"kind": "crash", "task": rng.randrange(nw), "k": rng.choice([rng.randint(1, 60), rng.randint(1, 500)])})
    return {"params": {"left": M.gen_drm(rng, cl, shape, lr, False), "right": M.gen_drm(rng, cr, shape, rr, True),
                       "t": O.any_tensor(rng, shape, kinds, 0.25), "lcut": cuts(rng, lr, nl), "rcut": cuts(rng, rr, nr),
                       "workers": nw, "nest": [nested(rng, lr), nested(rng, rr)], "cpu": [rng.choice([1, 2, 3, 8, 64]) for _ in range(nw)],
                       "ship": rng.choice(["spec", "spec", "slice", "map"]),
                       "resend": rng.choice([0.1, 1.0]), "assign": rng.getrandbits(30)},
            "faults": faults, "sched": gen_sched(rng)}


def tup(c):
    return [tuple(x) for x in c]


def run(plan, ctx):
    P = plan["params"]
    lspec, rspec = P["left"], P["right"]
    lcut, rcut = tup(P["lcut"]), tup(P["rcut"])
    what = f"left {lspec['cls']} {lspec['rank']} cuts {lcut} right {rspec['cls']} {rspec['rank']} cuts {rcut} shape {lspec['shape']} tensor {P['t']['kind']}"
    shape = tuple(lspec["shape"])
    d = len(shape)
    pairs = [(i, j) for i in range(len(lcut) - 1) for j in range(len(rcut) - 1)]

    def block(left, right, tensor):
        from tt_sketch.sketch_dispatch import SketchMethod, general_sketch

        s = general_sketch(tensor, left, right, method=SketchMethod.streaming)
        return M.copy_comps(s)

    def root(sim):
        from tt_sketch.sketch import blocked_stream_sketch

        net = Net(sim, plan["faults"])
        L, R = M.build_drm(lspec), M.build_drm(rspec)
        tensor, X = M.build(P["t"])
        Xa = M.absdense(P["t"])
        # slices are parts of the maps
        Lm, Rm = M.maps(L, shape, ctx, transpose=False), M.maps(R, shape, ctx, transpose=True)
        for drm, maps, cut, side in ((L, Lm, lcut, "left"), (R, Rm, rcut, "right")):
            for a, b in zip(cut[:-1], cut[1:]):
                part = M.maps(drm.slice(a, b), shape, ctx, transpose=side == "right")
                for mu in range(d - 1):
                    ctx.close(part[mu], maps[mu][a[mu]:b[mu]], "slice of a map is not the part of the map",
                              f"{side} mode {mu} rows {a[mu]}:{b[mu]}; {what}", tol=1e-10,
                              scale=1 + float(np.max(np.abs(maps[mu]), initial=0)))
        # a slice of a slice, in the coordinates of the whole map
        for drm, maps, (a, b), (a2, b2), side in ((L, Lm, *P["nest"][0], "left"), (R, Rm, *P["nest"][1], "right")):
            part = M.maps(drm.slice(tuple(a), tuple(b)).slice(tuple(a2), tuple(b2)), shape, ctx, transpose=side == "right")
            for mu in range(d - 1):
                ctx.close(part[mu], maps[mu][a2[mu]:b2[mu]], "slice of a slice is not the part of the map",
                          f"{side} mode {mu} rows {a[mu]}:{b[mu]} then {a2[mu]}:{b2[mu]}; {what}", tol=1e-10,
                          scale=1 + float(np.max(np.abs(maps[mu]), initial=0)))
        exp = M.contract(Lm, Rm, X, Xa)

        def worker(k):
            me, inc = f"w{k}", 0
            while True:
                try:
                    cache = {}
                    t = M.build(P["t"])[0]
                    while True:
                        m = net.recv(me, 1000.0)
                        if m is None:
                            return
                        src, (cmd, key, payload) = m
                        if cmd == "stop":
                            return
                        i, j = key
                        if P["ship"] == "slice":
                            l, r = payload
                        else:
                            if P["ship"] == "map":
                                lm, rm = payload
                            else:  # from the parameters of the maps
                                if "maps" not in cache:
                                    cache["maps"] = (M.build_drm(lspec), M.build_drm(rspec))
                                lm, rm = cache["maps"]
                            l, r = lm.slice(lcut[i], lcut[i + 1]), rm.slice(rcut[j], rcut[j + 1])
                        res = block(l, r, t)
                        net.send(me, "co", ("block", key, res))
                except ProcessCrash:
                    inc += 1
                    ctx.probe("worker restarted")
                    net.clear(me)
                    sim.move(sim.new_node(f"{me}.{inc}", cpu=P["cpu"][k], salt=77 * k + inc))

        tasks = [sim.spawn(worker, k, name=f"w{k}", node=sim.new_node(f"w{k}", cpu=P["cpu"][k])) for k in range(P["workers"])]
        for f in plan["faults"]:
            if f["kind"] == "crash" and f["task"] < len(tasks):
                t = tasks[f["task"]]
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda x, t=t: x is t, name="crash"))
        got = {}
        tries = {}
        rounds = 0
        while len(got) < len(pairs):
            rounds += 1
            ctx.check(rounds < 60, "blocked sketch makes no progress", what)
            if any(t.exc is not None for t in tasks):
                raise next(t.exc for t in tasks if t.exc is not None)
            for key in pairs:
                if key in got:
                    continue
                n = tries[key] = tries.get(key, 0) + 1
                if n > 1:
                    ctx.probe("block requested again")
                k = (P["assign"] + 7 * key[0] + 3 * key[1] + n) % P["workers"]
                if P["ship"] == "slice":
                    i, j = key
                    payload = (L.slice(lcut[i], lcut[i + 1]), R.slice(rcut[j], rcut[j + 1]))
                else:
                    payload = (L, R)
                net.send("co", f"w{k}", ("do", key, payload))
            end = sim.now + P["resend"] * (1 + rounds)
            while sim.now < end and len(got) < len(pairs):
                m = net.recv("co", max(end - sim.now, 1e-6))
                if m is None:
                    break
                _, (cmd, key, res) = m
                if key in got:
                    ctx.probe("block computed twice")
                    for a, b in zip(res[0] + res[1], got[key][0] + got[key][1]):
                        ctx.close(a, b, "block differs between two workers", f"{key}; {what}", tol=1e-11,
                                  scale=1 + float(np.max(np.abs(b), initial=0)))
                got[key] = res
        net.parts, net.fates = [], {}
        for k in range(P["workers"]):
            net.send("co", f"w{k}", ("stop", None, None))
        sim.injections = []
        for t in tasks:
            sim.join(t)
            if t.exc is not None:
                raise t.exc
        # assembly by the model
        Ps, Os, ps, os_ = exp
        gp = [np.full(p.shape, np.nan) for p in Ps]
        go = [np.full(o.shape, np.nan) for o in Os]
        for (i, j), (bp, bo) in got.items():
            la, lb = (0,) + lcut[i], (1,) + lcut[i + 1]
            ra, rb = rcut[j] + (0,), rcut[j + 1] + (1,)
            for mu in range(d):
                want = (lb[mu] - la[mu], shape[mu], rb[mu] - ra[mu])
                ctx.check(bp[mu].shape == want, "block has the wrong shape", f"Psi {mu} {bp[mu].shape} != {want}; {what}")
                gp[mu][la[mu]:lb[mu], :, ra[mu]:rb[mu]] = bp[mu]
            for mu in range(d - 1):
                go[mu][la[mu + 1]:lb[mu + 1], ra[mu]:rb[mu]] = bo[mu]

        class S:
            Psi_cores, Omega_mats = gp, go

        M.check_comps(ctx, S, *exp, kind="assembled blocks differ from the whole sketch", detail=what)
        # the library's own assembly and the unblocked sketch
        whole = blocked_stream_sketch(tensor, L, R, lcut, rcut)
        M.check_comps(ctx, whole, *exp, kind="blocked sketch differs from the whole sketch", detail=what)
        full = block(L, R, tensor)

        class F:
            Psi_cores, Omega_mats = full

        M.check_comps(ctx, F, *exp, kind="sketch with the full maps differs from its definition", detail=what)
        ctx.probe(f"slices {lspec['cls']}")
        if any(a == b for c in (lcut, rcut) for x, y in zip(c[:-1], c[1:]) for a, b in zip(x, y)):
            ctx.probe("empty slice")

    ctx.run_sim(root, cpu=P["cpu"][0])
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0


def simplify(plan):
    import copy

    for key in ("lcut", "rcut"):
        c = plan["params"][key]
        for i in range(1, len(c) - 1):
            p = copy.deepcopy(plan)
            del p["params"][key][i]
            yield p
    if plan["params"]["workers"] > 1:
        p = copy.deepcopy(plan)
        p["params"]["workers"] = 1
        yield p
    t = plan["params"]["t"]
    if t["kind"] == "sum":
        for x in t["parts"]:
            p = copy.deepcopy(plan)
            p["params"]["t"] = x
            yield p
