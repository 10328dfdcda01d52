"""Seeded objects in many environments: cores, schedules, hash salts, global
generator states, concurrent activity, and a second interpreter."""
import numpy as np

from dst import child, model as M, seeded as S
from dst.harness import Ctx, gen_sched

ID = "C01"
HASHSEEDS = [4242, 77]


def gen_seed(rng):
    return rng.choice([0, 1, 2, rng.getrandbits(8), rng.getrandbits(16), rng.getrandbits(31), rng.randrange(2**31, 2**32 - 2)])


def gen_other(rng, sd):
    """Another seed: a neighbour, one that agrees in the low bits, or any."""
    r = rng.random()
    if r < 0.4:
        return sd + 1 if sd + 1 < 2**32 - 2 else 0
    if r < 0.6:
        return (sd + rng.choice([2**8, 2**16, 2**24, 2**31])) % (2**32 - 1)
    if r < 0.7 and sd >= 256:
        return sd % rng.choice([64, 128, 256, 1000, 2**16 if sd >= 2**16 else 256])
    return gen_seed(rng)


def gen_others(rng, sd):
    step = rng.choice([1, 2, 8, 16, 32, 64, 100, 128, 256, 1000, 1024, 2**12, 2**16, 2**20, 2**24, 2**31])
    return [(sd + i * step) % (2**32 - 1) for i in range(1, rng.choice([2, 2, 3, 5]))]


def gen_crowd(rng):
    """Many consecutive or random seeds for one kind of object."""
    it = S.gen_item(rng, ("normal", "tt", "cp", "drm", "drm", "drm"))
    n, start = rng.choice([20, 60, 60]), rng.choice([0, 0, rng.getrandbits(31)])
    step = rng.choice([1, 1, 2, 64, 100, 256, 2**16])
    seeds = [start + i * step for i in range(n)]
    if rng.random() < 0.5:
        seeds = sorted({rng.getrandbits(rng.choice([10, 16, 24, 31])) for _ in range(n)})
    return {"item": it, "seeds": seeds}


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        it = S.gen_item(rng)
        sd = gen_seed(rng)
        ops.append({"item": it, "seed": sd, "other": gen_other(rng, sd), "others": gen_others(rng, sd),
                    "stype": rng.choice(["int", "int", "np.int64", "np.uint32"])})
    envs = []
    for _ in range(rng.randint(1, 3)):
        envs.append({"cpu": rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64]), "salt": rng.getrandbits(40),
                     "glob": rng.choice([None, 0, rng.getrandbits(32)]), "draws": rng.randint(0, 5),
                     "noise": [rng.choice(["seeded", "unseeded", "draws", "drm"]) for _ in range(rng.choice([0, 0, 1, 2]))]})
    return {"params": {"child": rng.choice([None, None, None] + HASHSEEDS), "crowd": gen_crowd(rng) if rng.random() < 0.1 else None}, "ops": ops, "faults": envs, "sched": gen_sched(rng)}


def seed_of(op):
    v = op["seed"]
    return {"int": int, "np.int64": np.int64, "np.uint32": np.uint32}[op["stype"]](v)


def noise(kind, n):
    from tt_sketch import tensor as t

    if kind == "seeded":
        t.TensorTrain.random((3, 4, 3), 2, seed=n)
    elif kind == "unseeded":
        t.CPTensor.random((3, 4), 2)
        t.SparseTensor.random((3, 4), 3)
    elif kind == "draws":
        for _ in range(5):
            np.random.uniform(size=3)
            np.random.seed(n)
    else:
        M.build_drm({"cls": "DG", "rank": [2, 3], "shape": [3, 2, 3], "transpose": n % 2 == 0, "seed": n})


def run(plan, ctx):
    ops = plan["ops"]

    def ref(sim):
        return [(S.make(op["item"], seed_of(op)), S.make(op["item"], op["other"])) for op in ops]

    want = Ctx({"sched": {"mode": "none"}, "entropy": 11}).run_sim(ref, cpu=8)

    for n, e in enumerate(plan["faults"]):
        def root(sim):
            if e["glob"] is not None:
                np.random.seed(e["glob"])
            for _ in range(e["draws"]):
                np.random.normal()
            tasks = [sim.spawn(noise, k, j, name=f"noise-{k}") for j, k in enumerate(e["noise"])]
            out = [S.make(op["item"], seed_of(op)) for op in ops]
            # the same object again, in another order
            again = [S.make(op["item"], seed_of(op)) for op in reversed(ops)][::-1]
            sim.join(*tasks)
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
            return out, again

        out, again = ctx.run_sim(root, cpu=e["cpu"], salt=e["salt"], entropy=f"{plan.get('entropy')}/{n}", max_steps=6000000)
        ctx.fault("environment:cores", int(e["cpu"] != 8))
        ctx.fault("environment:hash salt")
        ctx.fault("environment:global generator", int(e["glob"] is not None or e["draws"] > 0))
        ctx.fault("environment:concurrent activity", len(e["noise"]))
        for op, o, a, (w, _) in zip(ops, out, again, want):
            d = f"seed {op['seed']} cpu {e['cpu']} noise {e['noise']}"
            S.compare(ctx, op["item"], o, w, "seeded result depends on the environment", d)
            S.compare(ctx, op["item"], a, w, "seeded result depends on the environment", "second time; " + d)
            ctx.probe(op["item"]["what"] + (" " + str(op["item"].get("cls")) if "cls" in op["item"] else ""))

    hs = plan["params"]["child"]
    if hs is not None:
        got = child.ask(hs, "dst.seeded", "serve", {
            "items": [(op["item"], op["seed"]) for op in ops], "cpu": 3, "salt": 99, "entropy": hs})
        ctx.fault("environment:other interpreter")
        for op, g, (w, _) in zip(ops, got, want):
            S.compare(ctx, op["item"], g, w, "seeded result differs in another interpreter", f"seed {op['seed']} hash seed {hs}")

    # distinctness
    for op, (a, b) in zip(ops, want):
        it = op["item"]
        if op["seed"] != op["other"] and S.volume(it) >= 24 and it["what"] not in ("orth", "hmt"):
            cat = lambda l: np.concatenate([np.ravel(x).astype(float) for x in l])
            x, y = cat(a), cat(b)
            ctx.check(x.shape != y.shape or not np.array_equal(x, y), "two seeds give the same object",
                      f"{it['what']} {it.get('cls', '')} seeds {op['seed']} {op['other']}")
            if it["what"] in ("normal", "tt", "cp") or it["what"] == "drm" and it["cls"] in ("DG", "SG", "TT"):
                for i, (p, q) in enumerate(zip(a, b)):
                    if p.size >= 2 and p.shape == q.shape:
                        ctx.check(not np.array_equal(p, q), "two seeds give the same part of an object",
                                  f"{it['what']} {it.get('cls', '')} part {i} seeds {op['seed']} {op['other']}")
        parts(ctx, op, a)
    left_right(ctx, plan)
    if plan["params"].get("crowd"):
        crowd(ctx, plan["params"]["crowd"])
    ctx.nontrivial = True


def crowd(ctx, c):
    it = c["item"]

    def f(sim):
        objs = [S.make(it, s) for s in c["seeds"]]
        if it["what"] == "drm" and it["cls"] == "SS":  # few outcomes in each part
            objs = [[np.concatenate([np.ravel(a) for a in o])] for o in objs]
        return objs

    objs = Ctx({"sched": {"mode": "none"}, "entropy": 7}).run_sim(f)
    if S.volume(it) < 30:
        return
    for j in range(max(len(o) for o in objs)):
        seen = {}
        for s, o in zip(c["seeds"], objs):
            if j >= len(o) or o[j].size < 2:
                continue
            key = (o[j].shape, np.ascontiguousarray(o[j]).tobytes())
            ctx.check(key not in seen, "two seeds give the same part of an object",
                      f"{it['what']} {it.get('cls', '')} part {j} seeds {seen.get(key)} {s}")
            seen[key] = s
    ctx.probe("crowd of seeds")


def distinct_numbers(ctx, a, what):
    v = np.ravel(a)
    if v.size >= 2:
        ctx.check(len(np.unique(v)) == v.size, "random numbers repeat within one array", what)


def proportional(p, q):
    n = min(p.size, q.size)
    if n < 4:
        return False
    p, q = np.ravel(p)[:n], np.ravel(q)[:n]
    if not (np.all(p != 0) and np.all(q != 0)):
        return False
    r = p / q
    return bool(np.max(np.abs(r - r[0])) <= 1e-9 * abs(r[0]))


def as_requested(ctx, it, arrs, w):
    """Shapes, ranks and numbers of entries of the seeded object."""
    shape, rk, kind = list(it["shape"]), it.get("rank"), "seeded object is not of the requested shape and rank"
    ctx.check(all(np.all(np.isfinite(a)) for a in arrs), "seeded object has entries that are not numbers", w)
    if it["what"] in ("normal", "decay"):
        ctx.check(list(arrs[0].shape) == shape, kind, f"{arrs[0].shape}; {w}")
    elif it["what"] == "tt":
        r = [1] + list(rk) + [1]
        sh = [list(a.shape) for a in arrs]
        ctx.check([s[1] for s in sh] == shape and sh[0][0] == sh[-1][2] == 1 and all(a[2] == b[0] for a, b in zip(sh, sh[1:])), kind, f"{sh}; {w}")
        got = [s[0] for s in sh] + [1]
        if it["opt"] in ("plain", "norm-preserve"):
            ctx.check(got == r, kind, f"{sh} for {rk}; {w}")
        else:
            ctx.check(all(1 <= a <= b for a, b in zip(got, r)) and all(a * n >= b for a, n, b in zip(got, shape, got[1:])), kind, f"{sh} for {rk}; {w}")
        if it["opt"] == "orthog":
            for a in arrs[:-1]:
                q = a.reshape(-1, a.shape[2])
                ctx.close(q.T @ q, np.eye(q.shape[1]), "cores are not orthogonal as requested", w, scale=1.0)
    elif it["what"] == "cp":
        ctx.check([list(a.shape) for a in arrs] == [[n, rk] for n in shape], kind, w)
    elif it["what"] == "tucker":
        rk = [min(r, n) for r, n in zip([rk] * len(shape) if isinstance(rk, int) else rk, shape)]
        ctx.check([list(a.shape) for a in arrs[:-1]] == [[r, n] for r, n in zip(rk, shape)] and list(arrs[-1].shape) == list(rk), kind,
                  f"{[a.shape for a in arrs]} for {rk}; {w}")
    elif it["what"] == "sparse":
        idx, e = arrs
        ctx.check(idx.shape == (len(shape), it["nnz"]) and e.shape == (it["nnz"],), kind, f"{idx.shape} {e.shape} for {it['nnz']}; {w}")
        ctx.check(np.all(idx >= 0) and np.all(idx < np.array(shape)[:, None]), "position outside the tensor", w)
        flat = np.ravel_multi_index(tuple(idx), shape)
        ctx.check(len(np.unique(flat)) == it["nnz"], "positions of a sparse tensor repeat", w)
    elif it["what"] == "drm":
        ctx.check([a.shape[0] for a in arrs] == list(rk), kind, f"{[a.shape for a in arrs]} for {rk}; {w}")


def parts(ctx, op, arrs):
    it = op["item"]
    w = f"{it['what']} {it.get('cls', '')} shape {it['shape']} seed {op['seed']}"
    as_requested(ctx, it, arrs, w)
    if it["what"] == "normal":
        distinct_numbers(ctx, arrs[0], w)
    elif it["what"] == "tt" and it["opt"] != "orthog" or it["what"] == "cp":
        for i, a in enumerate(arrs):
            distinct_numbers(ctx, a, w)
            for b in arrs[:i]:
                ctx.check(not proportional(a, b), "cores of one object repeat the same numbers", w)
    elif it["what"] == "tucker":
        core = arrs[-1]
        for i, a in enumerate(arrs[:-1]):
            for b in arrs[:i]:
                if a.shape == b.shape and a.size >= 4 and a.shape[0] < a.shape[1]:
                    ctx.check(not np.allclose(np.abs(a), np.abs(b)), "factors of one object repeat", w)
            if core.size >= a.size >= 4 and a.shape[0] < a.shape[1]:
                q = np.linalg.qr(np.ravel(core)[: a.size].reshape(a.shape).T)[0].T
                ctx.check(not np.allclose(np.abs(a), np.abs(q)), "factor and core of one object repeat the same numbers", w)
    elif it["what"] == "drm" and it["cls"] in ("DG", "SG"):
        # the map of every unfolding at the positions where it varies
        shape = tuple(it["shape"][::-1] if it["transpose"] else it["shape"])
        mats = arrs[::-1] if it["transpose"] else arrs
        vals = []
        for mu, m in enumerate(mats):
            full = m.reshape((m.shape[0],) + tuple(it["shape"]))
            if it["transpose"]:
                full = full.transpose((0,) + tuple(range(len(shape), 0, -1)))
            vals.append(full[(slice(None),) * (mu + 2) + (0,) * (len(shape) - mu - 1)])
        for mu, m in enumerate(vals):
            distinct_numbers(ctx, m, f"map of mode {mu}; {w}")
            for nu in range(mu):
                k = min(m.shape[0], vals[nu].shape[0])
                # compare position p with position (p, 0, ..)
                x, y = m[:k], vals[nu][:k]
                x = x[(slice(None),) * y.ndim + (0,) * (x.ndim - y.ndim)]
                ctx.check(not np.any(x == y), "modes of one map repeat the same numbers", f"modes {nu}, {mu}; {w}")


def left_right(ctx, plan):
    """Default maps of one seeded call: left and right differ, each with the seed."""
    from tt_sketch import sketch as k

    for op in plan["ops"]:
        it = op["item"]
        if it["what"] not in ("stream", "orth", "hmt"):
            continue

        def f(sim, seed):
            x = S.input_tensor(it)
            cls = M.drm_class(it["cls"]) if it["cls"] else None
            if it["what"] == "hmt":
                return None, M.maps(k.hmt_sketch(x, 3, seed=seed, drm_type=cls, return_drm=True)[1], it["shape"])
            fn = k.stream_sketch if it["what"] == "stream" else k.orthogonal_sketch
            lo, hi = (4, 2) if it["what"] == "stream" and it["big"] == "left" else (2, 4)
            _, l, r = fn(x, lo, hi, seed=seed, left_drm_type=cls, return_drm=True)
            return M.maps(l, it["shape"]), M.maps(r, it["shape"])

        sim = lambda s: Ctx({"sched": {"mode": "none"}, "entropy": 5}).run_sim(lambda z: f(z, s))
        L, R = sim(op["seed"])
        d = len(it["shape"])
        what = f"{it['what']} {it['cls']} seed {op['seed']}"
        for mu in range(d - 1 if L else 0):
            a = L[mu]
            b = R[d - 2 - mu]
            b = b.transpose((0,) + tuple(range(b.ndim - 1, 0, -1)))
            a, b = a[:2].reshape(2, -1, order="F"), b[:2].reshape(2, -1, order="F")
            j = min(a.shape[1], b.shape[1])
            ctx.check(not np.any(a[:, :j] == b[:, :j]), "left and right map repeat the same numbers", f"{what} mode {mu}")
        # other seeds: the given one, and all that a reduction of the seed could confuse
        seeds = {op["seed"]: (L, R)}
        for o in [op["other"]] + op.get("others", []):
            if o in seeds:
                continue
            L2, R2 = sim(o)
            for p, (L1, R1) in seeds.items():
                for side, A, B in (("left", L1, L2), ("right", R1, R2)):
                    for mu, (a, b) in enumerate(zip(A or [], B or [])):
                        ctx.check(a.shape != b.shape or not np.array_equal(a, b), "two seeds give the same part of an object",
                                  f"{side} map of mode {mu} seeds {p} and {o}; {what}")
            seeds[o] = L2, R2
        ctx.probe("left-right")
