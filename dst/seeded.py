"""Public calls that take a seed, on arguments given by JSON items."""
import numpy as np

from dst import model as M

TENSORS = ("normal", "tt", "cp", "tucker", "sparse", "decay")
SKETCH = ("stream", "orth", "hmt")


def gen_item(rng, whats=None, unseeded=False):
    w = rng.choice(whats or (TENSORS + ("drm",) * 5 + SKETCH * 2))
    it = {"what": w}
    if w == "normal":
        it["shape"] = rng.choice([[rng.randint(4, 60)], [rng.randint(2, 9), rng.randint(2, 9)], [3, 2, 4]])
        if rng.random() < 0.1:
            it["shape"] = rng.choice([[rng.randint(1000, 40000)], [rng.randint(30, 200), rng.randint(30, 200)],
                                      [rng.randint(10**5, 3 * 10**5)], [rng.randint(1000, 1300), rng.randint(1000, 1300)]])
    elif w in TENSORS:
        it["shape"] = M.gen_shape(rng, maxsize=150, ones=False)
        d = len(it["shape"])
        it["rank"] = rng.randint(2, 3) if w == "cp" else M.gen_rank(rng, d, 1, 3)
        if w == "tucker":
            it["rank"] = [rng.randint(1, n + (rng.random() < 0.2)) for n in it["shape"]]
            if rng.random() < 0.15:
                it["rank"] = rng.randint(1, max(it["shape"]))
        it["nnz"] = rng.randint(3, int(np.prod(it["shape"])))
        it["opt"] = rng.choice(["plain", "orthog", "norm-preserve", "trim"])
    elif w == "drm":
        it["cls"] = rng.choice(M.DRMS)
        it["shape"] = M.gen_shape(rng, maxsize=120, ones=False)
        it["rank"] = M.gen_rank(rng, len(it["shape"]), 2, 4)
        it["transpose"] = rng.random() < 0.5
        if it["cls"] == "SS" and rng.random() < 0.5:
            it["nnz"] = [rng.randint(1, r) for r in it["rank"]]
    else:
        d = rng.choice([2, 3, 3, 4])
        it["shape"] = [rng.randint(3, 5) for _ in range(d)] if rng.random() < 0.6 else [rng.randint(3, 5)] * d
        it["rank"] = rng.randint(1, 2)
        it["over"] = rng.randint(2, 4)
        it["cls"] = rng.choice([None, None, "TT", "DG", "SG"])
        it["cls2"] = rng.choice([None, it["cls"]])
        it["tseed"] = rng.getrandbits(31)
        it["fmt"] = rng.choice(["tt", "sparse", "sum"] if it["cls"] in ("DG", None, "TT") else ["sparse"])
        it["big"] = rng.choice(["left", "right"])
        it["full"] = rng.random() < 0.3
        it["maps"] = rng.random() < 0.5
        it["cut"] = rng.random() < 0.5
    return it


def exact(it):
    return it["what"] in TENSORS + ("drm",) and it["what"] != "decay"


def _rank(r):
    return r if isinstance(r, int) else tuple(r)


def input_tensor(it):
    from tt_sketch import tensor as t

    shape = tuple(it["shape"])
    x, dense = M.build({"kind": "tt", "shape": shape, "seed": it["tseed"], "rank": [it["rank"] + bool(it.get("cut"))] * (len(shape) - 1)})
    if it["fmt"] == "sparse":
        return t.DenseTensor(dense).to_sparse()
    if it["fmt"] == "sum":
        return t.TensorSum([x, x * 0.5])
    return x


def apply_drm(drm, shape):
    """Values of the map: all positions of the tensor."""
    return [np.array(m, dtype=float) for m in drm.sketch_sparse(M.grid_sparse(shape))]


def make(it, seed):
    """-> list of arrays.  seed None: unseeded."""
    from tt_sketch import sketch as k
    from tt_sketch import tensor as t
    from tt_sketch import utils as u

    w, shape = it["what"], tuple(it["shape"])
    if w == "normal":
        return [u.random_normal(shape, seed=seed)]
    if w == "tt":
        kw = {"plain": {}, "orthog": {"orthog": True}, "norm-preserve": {"norm_goal": "norm-preserve"}, "trim": {"trim": True}}[it["opt"]]
        return list(t.TensorTrain.random(shape, _rank(it["rank"]), seed=seed, **kw).cores)
    if w == "cp":
        return list(t.CPTensor.random(shape, it["rank"], seed=seed).cores)
    if w == "tucker":
        x = t.TuckerTensor.random(shape, _rank(it["rank"]), seed=seed)
        return list(x.factors) + [x.core]
    if w == "sparse":
        x = t.SparseTensor.random(shape, it["nnz"], seed=seed)
        return [np.stack(tuple(x.indices)), x.entries]
    if w == "decay":
        return [u.power_decay_tensor(shape, seed=seed)]
    if w == "drm":
        s = dict(it, seed=seed)
        return apply_drm(M.build_drm(s), shape)
    x = input_tensor(it)
    cls = M.drm_class(it["cls"]) if it["cls"] else None
    cls2 = M.drm_class(it["cls2"]) if it["cls2"] else None
    # a result of full rank recovers the tensor and hides the maps; show them,
    # or truncate
    maps = {"return_drm": True} if it.get("maps") else {}

    def show(y, *drms):
        return y + [a for d in drms if d is not None for a in M.maps(d, shape)]

    rank = it["rank"] - 1 if it.get("cut") else it["rank"]
    if w == "hmt":
        y = k.hmt_sketch(x, max(1, rank + (0 if it.get("cut") else it["over"])), seed=seed, drm_type=cls, **maps)
        y, l = y if maps else (y, None)
        return show([y.to_numpy()], l)
    lo, hi = rank + 1, rank + 1 + it["over"]
    if w == "orth":
        y = k.orthogonal_sketch(x, lo, hi, seed=seed, left_drm_type=cls, right_drm_type=cls2, **maps)
        y, l, r = y if maps else (y, None, None)
        return show([y.to_numpy()], l, r)
    l, r = (lo, hi) if it["big"] == "right" else (hi, lo)
    s = k.stream_sketch(x, l, r, seed=seed, left_drm_type=cls, right_drm_type=cls2)
    return [np.array(c) for c in list(s.Psi_cores) + list(s.Omega_mats)]


def compare(ctx, it, got, want, kind, detail):
    ctx.check(len(got) == len(want), kind, f"number of arrays; {detail}")
    for i, (g, w) in enumerate(zip(got, want)):
        d = f"{it['what']} {it.get('cls', '')} array {i}; {detail}"
        if it["what"] in ("orth", "hmt", "decay"):
            ctx.close(g, w, kind, d, tol=1e-6, scale=1.0 + float(np.max(np.abs(w), initial=0)))
        elif it["what"] in TENSORS and it.get("opt") != "orthog" and it["what"] != "tucker":
            ctx.equal(g, w, kind, d)
        else:
            ctx.close(g, w, kind, d, tol=1e-10, scale=1.0 + float(np.max(np.abs(w), initial=0)))


def volume(it):
    """Number of random numbers that show in the result: distinctness checks
    are made only where chance cannot produce equality."""
    n = int(np.prod(it["shape"]))
    if it["what"] == "drm" and it["cls"] == "SS":
        # a sign and a place for each position of the longest unfolding
        return n // it["shape"][0 if it["transpose"] else -1]
    return 10 ** 6


def serve(item):
    """Child process under another real hash seed."""
    from dst.sim import Sim

    s = Sim({"mode": "none"}, entropy_seed=item.get("entropy", 0))
    s.nodes[0].cpu = item.get("cpu", 8)
    s.nodes[0].salt = item.get("salt", 5)
    return s.run(lambda: [make(i, sd) for i, sd in item["items"]])
