"""Operations of the public API on objects built from specs: used for fault
injection (C05) and for concurrent callers (C06).

Each entry: gen(rng) -> spec;  build(spec) -> dict of operand objects;
call(objs, spec) -> list of arrays/numbers.  Every operation is seeded or draws
no random numbers, and its result is well-conditioned."""
import numpy as np

from dst import model as M

OPS = {}


def op(name, weight=1.0):
    def deco(cls):
        cls.name = name
        cls.weight = weight
        OPS[name] = cls
        return cls
    return deco


def pick(rng, names=None):
    names = sorted(names or OPS)
    w = [OPS[n].weight for n in names]
    return rng.choices(names, w)[0]


def gen_low_tt(rng, shape, r):
    return {"kind": "tt", "shape": list(shape), "seed": rng.getrandbits(31), "rank": [r] * (len(shape) - 1)}


def any_tensor(rng, shape, kinds=M.KINDS, sums=0.15):
    if rng.random() < sums:
        return M.gen_sum(rng, shape, kinds, rng.randint(1, 3))
    return M.gen_tensor(rng, shape, rng.choice(kinds))


@op("seeded-constructor", 3)
class _:
    @staticmethod
    def gen(rng):
        shape = M.gen_shape(rng, maxsize=200, ones=False)
        return {"what": rng.choice(["normal", "tt", "tt-orthog", "cp", "tucker", "sparse"]), "shape": shape,
                "seed": rng.getrandbits(31), "rank": rng.randint(1, 3), "nnz": rng.randint(1, int(np.prod(shape)))}

    @staticmethod
    def build(s):
        return {}

    @staticmethod
    def call(o, s):
        from tt_sketch import tensor as t
        from tt_sketch.utils import random_normal

        sh, w = tuple(s["shape"]), s["what"]
        if w == "normal":
            return [random_normal(sh, seed=s["seed"])]
        if w == "tt":
            return list(t.TensorTrain.random(sh, s["rank"], seed=s["seed"]).cores)
        if w == "tt-orthog":
            return list(t.TensorTrain.random(sh, s["rank"], seed=s["seed"], orthog=True).cores)
        if w == "cp":
            return list(t.CPTensor.random(sh, s["rank"], seed=s["seed"]).cores)
        if w == "tucker":
            x = t.TuckerTensor.random(sh, s["rank"], seed=s["seed"])
            return list(x.factors) + [x.core]
        x = t.SparseTensor.random(sh, s["nnz"], seed=s["seed"])
        return [np.stack(tuple(x.indices)), x.entries]


@op("drm", 3)
class _:
    """Construct, transpose, slice, extend and apply a map."""
    @staticmethod
    def gen(rng):
        cls = rng.choice(M.DRMS)
        shape = M.gen_shape(rng, maxsize=120)
        rank = M.gen_rank(rng, len(shape), 1, 4)
        return {"drm": M.gen_drm(rng, cls, shape, rank, rng.random() < 0.5),
                "lo": [rng.randint(0, r - 1) for r in rank], "extra": [rng.randint(0, 2) for _ in rank],
                "tensor": M.gen_tensor(rng, shape, rng.choice(M.SUPPORT[cls])),
                "act": rng.choice(["apply", "T", "slice", "increase", "new"])}

    @staticmethod
    def build(s):
        return {"drm": M.build_drm(s["drm"]), "tensor": M.build(s["tensor"])[0]}

    @staticmethod
    def call(o, s):
        from tt_sketch.drm_base import CanIncreaseRank

        drm, t, act = o["drm"], o["tensor"], s["act"]
        if act == "new":
            drm = M.build_drm(s["drm"])
        elif act == "T":
            drm = drm.T
            t = t.T
        elif act == "slice":
            drm = drm.slice(tuple(s["lo"]), tuple(s["drm"]["rank"]))
        elif act == "increase" and isinstance(drm, CanIncreaseRank):
            drm = drm.increase_rank(tuple(a + b for a, b in zip(s["drm"]["rank"], s["extra"])))
        meth = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt", "cp": "sketch_cp",
                "tucker": "sketch_tucker"}[s["tensor"]["kind"]]
        return [np.array(x, dtype=float) for x in getattr(drm, meth)(t)]


@op("sketch", 4)
class _:
    """High-level sketch functions with a seed only."""
    @staticmethod
    def gen(rng):
        d = rng.choice([2, 3, 3, 4])
        shape = [rng.randint(2, 4) for _ in range(d)]
        cls = rng.choice(["DG", "TT", "TT", "SG"])
        r = rng.randint(1, 2)
        t = gen_low_tt(rng, shape, r)
        kind = rng.choice(M.SUPPORT[cls])
        return {"tt": t, "as": kind if kind in ("tt", "dense", "sparse") else "tt", "cls": cls, "r": r + 1,
                "method": rng.choice(["stream", "stream", "orth", "hmt"]), "seed": rng.getrandbits(31),
                "sum": rng.random() < 0.3, "over": rng.randint(3, 5)}

    @staticmethod
    def build(s):
        t, x = M.build(s["tt"])
        from tt_sketch import tensor as tt

        if s["as"] == "dense":
            t = tt.DenseTensor(x)
        elif s["as"] == "sparse":
            t = tt.DenseTensor(x).to_sparse()
        if s["sum"]:
            t = tt.TensorSum([t, t * 0.5])
        return {"tensor": t}

    @staticmethod
    def call(o, s):
        from tt_sketch import sketch as k

        cls = M.drm_class(s["cls"])
        t = o["tensor"]
        if s["method"] == "stream":
            r = k.stream_sketch(t, s["r"], s["r"] + s["over"], seed=s["seed"], left_drm_type=cls, right_drm_type=cls)
            return [np.array(x) for x in r.Psi_cores + r.Omega_mats] + [r.to_numpy()]
        if s["method"] == "orth":
            return [k.orthogonal_sketch(t, s["r"], s["r"] + s["over"], seed=s["seed"], left_drm_type=cls, right_drm_type=cls).to_numpy()]
        return [k.hmt_sketch(t, s["r"] + 1, seed=s["seed"], drm_type=cls).to_numpy()]


def stt_spec(rng, cls=None, maxsize=150):
    cls = cls or rng.choice(M.DRMS)
    shape = M.gen_shape(rng, maxsize=maxsize, dmax=4)
    d = len(shape)
    lo = M.gen_rank(rng, d, 1, 3)
    hi = [x + rng.randint(1, 2) for x in lo]
    left, right = (lo, hi) if rng.random() < 0.5 else (hi, lo)
    return {"left": M.gen_drm(rng, cls, shape, left, False), "right": M.gen_drm(rng, cls, shape, right, True),
            "cls": cls, "shape": shape}


def build_stt(s, tensor, l=None, r=None):
    from tt_sketch import sketch as k

    l = l or M.build_drm(s["left"])
    r = r or M.build_drm(s["right"])
    return k.stream_sketch(tensor, tuple(s["left"]["rank"]), tuple(s["right"]["rank"]), left_drm=l, right_drm=r)


@op("sketch-update", 5)
class _:
    @staticmethod
    def gen(rng):
        s = stt_spec(rng)
        kinds = M.SUPPORT[s["cls"]]
        s["t0"] = any_tensor(rng, s["shape"], kinds)
        s["t1"] = any_tensor(rng, s["shape"], kinds)
        s["act"] = rng.choice(["add", "add", "mul", "T", "neg", "sub", "increase", "merge", "Tadd"])
        s["c"] = rng.choice([2.0, -0.5, 3.0])
        s["extra"] = [rng.randint(0, 2) for _ in s["shape"][1:]]
        return s

    @staticmethod
    def build(s):
        l, r = M.build_drm(s["left"]), M.build_drm(s["right"])
        t0, t1 = M.build(s["t0"])[0], M.build(s["t1"])[0]
        return {"left": l, "right": r, "t0": t0, "t1": t1, "stt": build_stt(s, t0, l, r), "stt2": build_stt(s, t1, l, r)}

    @staticmethod
    def call(o, s):
        from tt_sketch.drm_base import CanIncreaseRank

        a, act = o["stt"], s["act"]
        if act == "add":
            b = a + o["t1"]
        elif act == "sub":
            b = a - o["t1"]
        elif act == "mul":
            b = a * s["c"]
        elif act == "neg":
            b = -a
        elif act == "T":
            b = a.T
        elif act == "Tadd":
            b = a.T + o["t1"].T
        elif act == "merge":
            b = a.sketch_ + o["stt2"].sketch_
        elif act == "increase" and isinstance(a.left_drm, CanIncreaseRank):
            b = a.increase_rank(o["t0"], tuple(x + e for x, e in zip(s["left"]["rank"], s["extra"])),
                                tuple(x + e for x, e in zip(s["right"]["rank"], s["extra"])))
        else:
            b = a + o["t0"]
        return [np.array(x) for x in list(b.Psi_cores) + list(b.Omega_mats)]


@op("map-many", 3)
class _:
    """One map (or pair of maps) applied to one of several tensors of the same shape."""
    ACTS = ["apply", "apply", "T", "slice", "stream", "update"]

    @staticmethod
    def gen(rng):
        s = stt_spec(rng)
        kinds = M.SUPPORT[s["cls"]]
        n = rng.randint(2, 4)
        one = rng.choice(kinds) if rng.random() < 0.5 else None
        s["tensors"] = [M.gen_tensor(rng, s["shape"], one or rng.choice(kinds)) for _ in range(n)]
        s["which"] = rng.randrange(n)
        s["side"] = rng.choice(["left", "right"])
        s["lo"] = [rng.randint(0, r - 1) for r in s["left"]["rank"]]
        s["lor"] = [rng.randint(0, r - 1) for r in s["right"]["rank"]]
        s["act"] = rng.choice(OPS["map-many"].ACTS)
        return s

    @staticmethod
    def build(s):
        o = {f"t{i}": M.build(t)[0] for i, t in enumerate(s["tensors"])}
        o["left"], o["right"] = M.build_drm(s["left"]), M.build_drm(s["right"])
        o["stt"] = build_stt(s, o["t0"], o["left"], o["right"])
        return o

    @staticmethod
    def call(o, s):
        i = s["which"] % len(s["tensors"])
        t, act, side = o[f"t{i}"], s["act"], s["side"]
        if act == "update":
            b = o["stt"] + t
            return [np.array(x) for x in list(b.Psi_cores) + list(b.Omega_mats)]
        if act == "stream":
            b = build_stt(s, t, o["left"], o["right"])
            return [np.array(x) for x in list(b.Psi_cores) + list(b.Omega_mats)]
        drm = o[side]
        if act == "T":
            drm, t = drm.T, t.T
        elif act == "slice":
            drm = drm.slice(tuple(s["lo" if side == "left" else "lor"]), tuple(s[side]["rank"]))
        meth = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt", "cp": "sketch_cp",
                "tucker": "sketch_tucker"}[s["tensors"][i]["kind"]]
        return [np.array(x, dtype=float) for x in getattr(drm, meth)(t)]


@op("blocked", 2)
class _:
    @staticmethod
    def gen(rng):
        s = stt_spec(rng, maxsize=80)
        s["t0"] = any_tensor(rng, s["shape"], M.SUPPORT[s["cls"]])
        s["cutl"] = [rng.randint(1, r) for r in s["left"]["rank"]]
        s["cutr"] = [rng.randint(1, r) for r in s["right"]["rank"]]
        return s

    @staticmethod
    def build(s):
        return {"left": M.build_drm(s["left"]), "right": M.build_drm(s["right"]), "t0": M.build(s["t0"])[0]}

    @staticmethod
    def call(o, s):
        from tt_sketch.sketch import blocked_stream_sketch

        z = (0,) * len(s["cutl"])
        b = blocked_stream_sketch(o["t0"], o["left"], o["right"], [z, tuple(s["cutl"]), tuple(s["left"]["rank"])],
                                  [z, tuple(s["cutr"]), tuple(s["right"]["rank"])])
        return [np.array(x) for x in b.Psi_cores + b.Omega_mats]


@op("algebra", 6)
class _:
    ACTS = ["add", "sub", "mul", "rmul", "div", "neg", "T", "dot", "norm", "error", "to_numpy", "gather", "dense",
            "split", "size", "iadd", "to_sparse"]

    @staticmethod
    def gen(rng):
        shape = M.gen_shape(rng, maxsize=120)
        return {"a": any_tensor(rng, shape, sums=0.3), "b": any_tensor(rng, shape, sums=0.3),
                "act": rng.choice(_ALG), "c": rng.choice([2.0, -1.5, 0.25]), "n": rng.randint(1, 3),
                "pos": [rng.randrange(10**6) for _ in range(4)]}

    @staticmethod
    def build(s):
        return {"a": M.build(s["a"])[0], "b": M.build(s["b"])[0]}

    @staticmethod
    def call(o, s):
        a, b, act, c = o["a"], o["b"], s["act"], s["c"]
        if act == "add":
            return [(a + b).to_numpy()]
        if act == "sub":
            return [(a - b).to_numpy()]
        if act == "mul":
            return [(a * c).to_numpy()]
        if act == "rmul":
            return [(c * a).to_numpy()]
        if act == "div":
            return [(a / c).to_numpy()]
        if act == "neg":
            return [(-a).to_numpy()]
        if act == "T":
            return [a.T.to_numpy()]
        if act == "dot":
            return [a.dot(b), b.dot(a), a @ b]
        if act == "norm":
            return [a.norm()]
        if act == "error":
            return [a.error(b), a.error(b, rmse=True), a.error(b, fast=True)]
        if act == "gather" and hasattr(a, "gather"):
            sh = s["a"]["shape"]
            idx = np.stack(np.unravel_index(np.array(s["pos"]) % int(np.prod(sh)), sh))
            return [a.gather(idx)]
        if act == "dense":
            return [a.dense().to_numpy()]
        if act == "split" and s["a"]["kind"] == "sparse":
            return [x.to_numpy() for x in a.split(s["n"]).tensors]
        if act == "size":
            return [float(a.size), float(a.ndim)]
        if act == "to_sparse" and s["a"]["kind"] == "dense":
            return [a.to_sparse().to_numpy()]
        if act == "iadd" and s["a"]["kind"] == "sum":
            from tt_sketch.tensor import TensorSum

            x = TensorSum(list(a.tensors))
            x += b
            return [x.to_numpy()]
        return [a.to_numpy()]


_ALG = OPS["algebra"].ACTS


@op("tensor-train", 4)
class _:
    ACTS = ["round", "round-eps", "orthogonalize", "add", "svdvals", "norm", "error", "partial", "svd", "dot", "mul"]

    @staticmethod
    def gen(rng):
        shape = M.gen_shape(rng, maxsize=120, ones=False)
        return {"a": M.gen_tensor(rng, shape, "tt"), "b": M.gen_tensor(rng, shape, "tt"),
                "act": rng.choice(OPS["tensor-train"].ACTS)}

    @staticmethod
    def build(s):
        return {"a": M.build(s["a"])[0], "b": M.build(s["b"])[0]}

    @staticmethod
    def call(o, s):
        from tt_sketch.tt_svd import tt_svd

        a, b, act = o["a"], o["b"], s["act"]
        if act == "round":
            return [a.add(b).round(max_rank=100).to_numpy()]
        if act == "round-eps":
            return [a.round(eps=1e-12).to_numpy()]
        if act == "orthogonalize":
            return [a.orthogonalize().to_numpy()]
        if act == "add":
            return [a.add(b).to_numpy()]
        if act == "svdvals":
            return [np.asarray(x) for x in a.svdvals()]
        if act == "norm":
            return [a.norm()]
        if act == "error":
            return [a.error(b), a.error(b, relative=True)]
        if act == "partial":
            return list(a.partial_dense("lr")) + list(a.partial_dense("rl"))
        if act == "svd":
            return [tt_svd(a.dense(), rank=50).to_numpy()]
        if act == "dot":
            return [a.dot(b)]
        return [(a * 2.0).to_numpy(), (3.0 * a).to_numpy()]


def mpo(spec):
    from tt_sketch.tt_gmres import MPO

    r = np.random.RandomState(spec["seed"])
    n = spec["shape"]
    rk = [1] + list(spec["rank"]) + [1]
    cores = []
    for i, s in enumerate(n):
        c = r.standard_normal((rk[i], s, s, rk[i + 1]))
        if spec.get("scale") is not None:
            c *= spec["scale"] ** (1.0 / len(n)) / np.sqrt(s * rk[i] * 2)
        cores.append(c)
    return MPO(cores)


def mpo_matrix(cores):
    """Independent dense matrix (out, in)."""
    x = cores[0]
    for c in cores[1:]:
        x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
    d = len(cores)
    x = x.reshape(x.shape[1:-1])  # i1 o1 i2 o2 ...
    ins = [c.shape[1] for c in cores]
    outs = [c.shape[2] for c in cores]
    x = x.transpose([2 * i + 1 for i in range(d)] + [2 * i for i in range(d)])
    return x.reshape(int(np.prod(outs)), int(np.prod(ins)))


@op("linear-map", 3)
class _:
    ACTS = ["call", "mul", "T", "sum", "precond", "forward", "to_tt", "eye", "roundsum"]

    @staticmethod
    def gen(rng):
        shape = M.gen_shape(rng, maxsize=80, dmax=4, ones=False)
        d = len(shape)
        return {"shape": shape, "A": {"shape": shape, "rank": M.gen_rank(rng, d, 1, 2), "seed": rng.getrandbits(31)},
                "B": {"shape": shape, "rank": M.gen_rank(rng, d, 1, 2), "seed": rng.getrandbits(31)},
                "x": M.gen_tensor(rng, shape, "tt"), "act": rng.choice(OPS["linear-map"].ACTS),
                "mode": rng.randrange(d), "method": rng.choice(["exact", "pairwise"])}

    @staticmethod
    def build(s):
        from tt_sketch.tt_gmres import TTLinearMapSum, TTPrecond

        A, B = mpo(s["A"]), mpo(s["B"])
        n = s["shape"][s["mode"]]
        r = np.random.RandomState(s["A"]["seed"] ^ 5)
        P = np.eye(n) * 3 + 0.3 * r.standard_normal((n, n))
        return {"A": A, "B": B, "x": M.build(s["x"])[0], "sum": TTLinearMapSum([A, B]),
                "P": TTPrecond(P, tuple(s["shape"]), mode=s["mode"])}

    @staticmethod
    def call(o, s):
        from tt_sketch.tt_gmres import MPO, round_tt_sum

        act, x = s["act"], o["x"]
        if act == "call":
            return [o["A"](x).to_numpy()]
        if act == "mul":
            return [(o["A"] * 2.5).to_numpy(), (2.0 * o["A"]).to_numpy()]
        if act == "T":
            return [o["A"].T.to_numpy()]
        if act == "sum":
            return [o["sum"](x).to_numpy()]
        if act == "precond":
            return [o["P"](x).to_numpy()]
        if act == "forward":
            return [o["P"].forward_call(x).to_numpy()]
        if act == "to_tt":
            return [o["A"].to_tt().to_numpy()]
        if act == "eye":
            return [MPO.eye(tuple(s["shape"]))(x).to_numpy()]
        return [round_tt_sum(o["sum"](x), max_rank=100, eps=1e-12, method=s["method"]).to_numpy()]


@op("solve", 1.2)
class _:
    @staticmethod
    def gen(rng):
        shape = [rng.randint(2, 3) for _ in range(rng.choice([2, 3]))]
        return {"shape": shape, "A": {"shape": shape, "rank": [1] * (len(shape) - 1), "seed": rng.getrandbits(31), "scale": 0.3},
                "b": M.gen_tensor(rng, shape, "tt"), "method": rng.choice(["exact", "pairwise"])}

    @staticmethod
    def build(s):
        from tt_sketch.tt_gmres import MPO, TTLinearMapSum

        return {"A": TTLinearMapSum([MPO.eye(tuple(s["shape"])), mpo(s["A"])]), "b": M.build(s["b"])[0]}

    @staticmethod
    def call(o, s):
        from tt_sketch.tt_gmres import tt_sum_gmres

        x, h = tt_sum_gmres(o["A"], o["b"], max_rank=50, tolerance=1e-5, maxiter=12, rounding_method=s["method"])
        return [x.to_numpy()]


TOL = {"sketch": 1e-5, "solve": 1e-3}


def compare(ctx, name, got, want, kind, detail):
    ctx.check(len(got) == len(want), kind, f"{name}: number of results; {detail}")
    finite = lambda a: np.abs(np.where(np.isfinite(np.asarray(a, dtype=float)), a, 0.0))
    scale = 1.0 + max([float(np.max(finite(w), initial=0)) for w in want] + [0])
    for i, (g, w) in enumerate(zip(got, want)):
        if not np.isfinite(w).all():  # overflow, or relative to zero
            g, w = np.array(g, dtype=float), np.array(w, dtype=float)
            if g.shape == w.shape:
                same = ~np.isfinite(w) & ((g == w) | (np.isnan(g) & np.isnan(w)))
                g[same] = w[same] = 0.0
        if name == "seeded-constructor":
            ctx.close(g, w, kind, f"{name}[{i}]; {detail}", tol=1e-12, scale=scale)
        else:
            ctx.close(g, w, kind, f"{name}[{i}]; {detail}", tol=TOL.get(name, 1e-8), scale=scale)


def gen_one(rng, names=None):
    n = pick(rng, names)
    return {"op": n, "spec": OPS[n].gen(rng)}
