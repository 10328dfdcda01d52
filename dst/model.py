"""Specs of tensors and maps (JSON), their construction for the code under test,
and independent dense models of what they mean."""
import numpy as np

from dst.sim import Violation

KINDS = ("dense", "sparse", "tt", "cp", "tucker")
SUPPORT = {
    "DG": ("dense", "sparse", "tt"),
    "SG": ("sparse",),
    "TT": KINDS,
    "SS": ("sparse",),
}
DRMS = ("DG", "SG", "TT", "SS")


# ---------------------------------------------------------------- generation
def gen_shape(rng, dmin=2, dmax=5, maxsize=240, ones=True, special=0.12):
    if rng.random() < special:
        s = gen_special_shape(rng, dmin, dmax, maxsize)
        if ones or min(s) > 1:
            return s
    while True:
        d = rng.choice([x for x in (2, 3, 3, 3, 4, 4, 5) if dmin <= x <= dmax])
        lo = 1 if ones and rng.random() < 0.15 else 2
        s = [rng.randint(lo, 6) for _ in range(d)]
        p = 1
        for x in s:
            p *= x
        if p <= maxsize:
            return s


def gen_special_shape(rng, dmin, dmax, maxsize):
    """Shapes beyond every threshold that small ones stay below: many modes, a
    long mode, many entries."""
    how = rng.choice(["order", "long", "large", "giant"] if maxsize >= 90 and rng.random() < 0.3 else ["order", "long", "large"])
    if how == "giant":
        d = rng.choice([x for x in (2, 3, 4) if dmin <= x <= dmax])
        if rng.random() < 0.6:
            n = {2: 110, 3: 24, 4: 10}[d]
            return [rng.randint(n - n // 4, n + n // 5) for _ in range(d)]
        s = [rng.randint(2, 4) for _ in range(d)]
        s[rng.randrange(d)] = rng.choice([rng.randint(128, 300), rng.randint(1000, 1100)]) if d < 4 else rng.randint(128, 200)
        return s
    if how == "order" and dmax >= 5:
        d = rng.choice([6, 7, 8, 9, 9, 12])
        s = [2] * d
        if d < 8:
            s[rng.randrange(d)] = 3
        if d > 9:  # modes of size one keep it small
            for i in rng.sample(range(d), d - 6 + rng.randint(0, 1)):
                s[i] = 1
        return s
    if how == "large" and maxsize >= 90:
        d = rng.choice([x for x in (2, 3, 4) if dmin <= x <= dmax])
        n = {2: 36, 3: 11, 4: 6}[d]
        return [rng.randint(n - n // 4, n + n // 4) for _ in range(d)]
    d = rng.choice([x for x in (2, 3) if dmin <= x <= dmax])
    s = [rng.randint(2, 3) for _ in range(d)]
    s[rng.randrange(d)] = rng.randint(17, 70)
    return s


def gen_rank(rng, d, lo=1, hi=5):
    """Per-edge ranks, not constant most of the time."""
    if hi >= 4 and rng.random() < 0.04:
        hi = 12
    if rng.random() < 0.25:
        return [rng.randint(lo, hi)] * (d - 1)
    return [rng.randint(lo, hi) for _ in range(d - 1)]


def gen_tensor(rng, shape, kind, scale=1.0, small=False):
    d = len(shape)
    s = {"kind": kind, "shape": list(shape), "seed": rng.getrandbits(31)}
    if rng.random() < 0.2:
        s["how"] = rng.choice(["int", "F", "strided", "tiny", "huge", "zeros"])
    if kind in ("tt", "cp", "tucker") and s.get("how") not in SCALE and rng.random() < 0.08:
        s["tied"] = True  # one array serves as several cores
    if kind == "sparse":
        n = int(np.prod(shape))
        s["nnz"] = rng.choice([0, 1, max(1, n // 4), max(1, n // 2), n]) if not small else rng.randint(1, max(1, n // 3))
        s["itype"] = rng.choice(["int64", "int64", "tuple", "int32"])
        s["order"] = rng.choice(["random", "sorted"])
    elif kind == "tt":
        s["rank"] = gen_rank(rng, d, 1, 12 if rng.random() < 0.04 else 3)
    elif kind == "cp":
        s["rank"] = rng.randint(1, 4) if rng.random() < 0.95 else rng.randint(8, 40)
    elif kind == "tucker":
        s["rank"] = [rng.randint(1, max(1, min(3, n))) for n in shape]
    return s


def gen_sum(rng, shape, kinds, n, nest=0.2):
    parts = []
    if rng.random() < 0.04:
        n += rng.randint(5, 9)
    for _ in range(n):
        if rng.random() < nest:
            parts.append({"kind": "sum", "shape": list(shape),
                          "parts": [gen_tensor(rng, shape, rng.choice(kinds)) for _ in range(rng.randint(1, 2))]})
        else:
            parts.append(gen_tensor(rng, shape, rng.choice(kinds)))
    if rng.random() < 0.15:  # one object several times
        parts.append(dict(rng.choice(parts), same=True))
    return {"kind": "sum", "shape": list(shape), "parts": parts}


def gen_drm(rng, cls, shape, rank, transpose):
    s = {"cls": cls, "rank": list(rank), "shape": list(shape), "transpose": transpose,
         "seed": rng.choice([rng.getrandbits(31), rng.getrandbits(8), rng.getrandbits(31), rng.randrange(2**31, 2**32 - 2), rng.choice([0, 1])])}
    if cls == "SS" and rng.random() < 0.6:
        s["nnz"] = [rng.randint(1, r) for r in rank]
    return s


# -------------------------------------------------------------- construction
def _rs(seed):
    return np.random.RandomState(seed)


class Numbers:
    """Random arrays as the spec wants them: integers, another memory layout,
    tiny or huge values."""

    def __init__(self, spec):
        self.r = np.random.RandomState(spec["seed"])
        self.how = spec.get("how")
        self.first = True
        self.tied = {} if spec.get("tied") else None
        self.laid = {}

    def __call__(self, shape):
        if self.tied is None:
            return self.draw(shape)
        if shape not in self.tied:
            self.tied[shape] = self.draw(shape)
        return self.tied[shape]

    def draw(self, shape):
        if self.how == "int":
            return self.r.randint(-3, 4, size=shape)
        a = self.r.standard_normal(shape)
        if self.how == "zeros":
            a[self.r.random_sample(a.shape) < 0.4] = 0.0
        if self.first and self.how in SCALE:
            a = a * SCALE[self.how]
        self.first = False
        return a

    def lay(self, a):
        if self.tied is None:
            return self.laid_out(a)
        if id(a) not in self.laid:
            self.laid[id(a)] = self.laid_out(a)
        return self.laid[id(a)]

    def laid_out(self, a):
        if self.how == "F":
            return np.asfortranarray(a)
        if self.how == "strided":
            big = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
            v = big[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        return a.copy()


SCALE = {"tiny": 1e-20, "huge": 1e20}


def build(spec):
    """-> (tensor of the code under test, dense array)"""
    from tt_sketch import tensor as t

    shape = tuple(spec["shape"])
    k = spec["kind"]
    if k == "sum":
        parts, objs = [], []
        for p in spec["parts"]:
            q = {a: b for a, b in p.items() if a != "same"}
            i = next((i for i, o in enumerate(objs) if o == q), None) if p.get("same") else None
            parts.append(build(q) if i is None else parts[i])
            objs.append(q)
        return t.TensorSum([p[0] for p in parts]), sum(p[1] for p in parts)
    r = Numbers(spec)
    d = len(shape)
    if k == "dense":
        x = r(shape)
        return t.DenseTensor(r.lay(x)), x.astype(float)
    if k == "sparse":
        n = int(np.prod(shape))
        pos = r.r.permutation(n)[: spec["nnz"]]
        if spec.get("order") == "sorted":
            pos = np.sort(pos)
        vals = r((len(pos),))
        x = np.zeros(n)
        x[pos] = vals
        inds = np.unravel_index(pos, shape)
        it = spec.get("itype", "int64")
        if it == "tuple":
            idx = tuple(np.array(i) for i in inds)
        else:
            idx = r.lay(np.stack(inds).astype(it))
        return t.SparseTensor(shape, idx, r.lay(vals)), x.reshape(shape)
    if k == "tt":
        rk = [1] + list(spec["rank"]) + [1]
        cores = [r((rk[i], shape[i], rk[i + 1])) for i in range(d)]
        x = cores[0].astype(float)
        for c in cores[1:]:
            x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
        return t.TensorTrain([r.lay(c) for c in cores]), x.reshape(shape)
    if k == "cp":
        cores = [r((n, spec["rank"])) for n in shape]
        x = np.zeros(shape)
        for j in range(spec["rank"]):
            y = cores[0][:, j].astype(float)
            for c in cores[1:]:
                y = np.multiply.outer(y, c[:, j])
            x = x + y
        return t.CPTensor([r.lay(c) for c in cores]), x
    if k == "tucker":
        rk = spec["rank"]
        core = r(tuple(rk))
        fs = [r((a, n)) for a, n in zip(rk, shape)]
        x = core.astype(float)
        for f in fs:  # contract the first axis, new axis goes last
            x = np.tensordot(x, f, axes=(0, 0))
        return t.TuckerTensor([r.lay(f) for f in fs], r.lay(core)), x
    raise ValueError(k)


def drm_class(name):
    from tt_sketch import drm

    return {"DG": drm.DenseGaussianDRM, "SG": drm.SparseGaussianDRM,
            "TT": drm.TensorTrainDRM, "SS": drm.SparseSignDRM}[name]


def build_drm(s):
    kw = {}
    if s.get("nnz"):
        kw["num_non_zero_per_row"] = tuple(s["nnz"])
    rank = tuple(s["rank"])
    if len(set(rank)) == 1 and s["seed"] is not None and s["seed"] % 2:
        rank = rank[0]
    return drm_class(s["cls"])(
        rank, tuple(s["shape"]), transpose=s["transpose"], seed=s["seed"], **kw)


# ---------------------------------------------------------------- map oracle
def grid_sparse(shape):
    from tt_sketch.tensor import SparseTensor

    n = int(np.prod(shape))
    inds = np.stack(np.unravel_index(np.arange(n), shape))
    return SparseTensor(tuple(shape), inds, np.ones(n))




def maps(drm, shape, ctx=None, transpose=None):
    """The linear maps of a DRM as dense arrays, one per unfolding:
    left (r, n_1, .., n_mu); right (r, n_mu+1, .., n_d).  Extracted through the
    public application to a sparse tensor holding every position."""
    shape = tuple(shape)
    if transpose is None:
        transpose = drm.transpose
    g = grid_sparse(shape)
    out = []
    mats = [np.asarray(m) for m in drm.sketch_sparse(g)]
    if len(mats) != len(shape) - 1:
        raise Violation("malformed map", f"{len(mats)} unfoldings for {len(shape)} modes")
    for mu, m in enumerate(mats):
        m = m.astype(float)
        if m.shape[1] != g.nnz:
            raise Violation("malformed map", f"map of mode {mu} has shape {m.shape}")
        a = m.reshape((m.shape[0],) + shape)
        if transpose:
            b = a[(slice(None),) + (0,) * (mu + 1)]
            full = np.broadcast_to(b.reshape((m.shape[0],) + (1,) * (mu + 1) + shape[mu + 1:]), a.shape)
        else:
            b = a[(slice(None),) + (slice(None),) * (mu + 1) + (0,) * (len(shape) - mu - 1)]
            full = np.broadcast_to(b.reshape((m.shape[0],) + shape[: mu + 1] + (1,) * (len(shape) - mu - 1)), a.shape)
        if ctx is not None:
            ctx.close(a, full, "map entry depends on modes outside its unfolding", f"mode {mu}",
                      scale=1.0 + float(np.max(np.abs(a), initial=0)), tol=1e-10)
        out.append(np.array(b))
    return out


def contract(L, R, X, Xa=None):
    """Defining contractions: lists Psi, Omega and the scale of rounding errors."""
    shape = X.shape
    d = len(shape)
    Ps, Os, ps, os_ = [], [], [], []
    Xa = np.abs(X) if Xa is None else Xa

    def l2(a):
        return a.reshape(a.shape[0], -1)

    for mu in range(d - 1):
        l, r = l2(L[mu]), l2(R[mu])
        n1 = l.shape[1]
        x = X.reshape(n1, -1)
        Os.append(l @ x @ r.T)
        os_.append(float(np.max(np.abs(l) @ Xa.reshape(n1, -1) @ np.abs(r).T, initial=0)) + 1e-300)
    for mu in range(d):
        l = l2(L[mu - 1]) if mu else np.ones((1, 1))
        r = l2(R[mu]) if mu < d - 1 else np.ones((1, 1))
        x = X.reshape(l.shape[1], shape[mu], r.shape[1])
        Ps.append(np.einsum("al,lnr,br->anb", l, x, r, optimize=True))
        xa = Xa.reshape(x.shape)
        ps.append(float(np.max(np.einsum("al,lnr,br->anb", np.abs(l), xa, np.abs(r), optimize=True), initial=0)) + 1e-300)
    return Ps, Os, ps, os_


def absdense(spec):
    """Entrywise bound on the intermediate values of a tensor given by spec."""
    if spec["kind"] == "sum":
        return sum(absdense(p) for p in spec["parts"])
    return np.abs(build(spec)[1]) + SCALE.get(spec.get("how"), 1.0)


def comps(s):
    """Components of a sketch (finished sketch or container) as plain arrays."""
    return [np.asarray(p) for p in s.Psi_cores], [np.asarray(o) for o in s.Omega_mats]


def oracle(lspec, rspec, X, Xa=None, ctx=None):
    """Defining contractions of X with the maps of the given specs."""
    L = maps(build_drm(lspec), X.shape, ctx, transpose=False)
    R = maps(build_drm(rspec), X.shape, ctx, transpose=True)
    return contract(L, R, X, Xa)


def check_comps(ctx, got, P, O, ps, os_, kind, detail="", tol=1e-9):
    gp, go = comps(got)
    ctx.check(len(gp) == len(P) and len(go) == len(O), kind, f"number of components; {detail}")
    for mu, (a, b, s) in enumerate(zip(gp, P, ps)):
        ctx.close(a, b, kind, f"Psi {mu}; {detail}", scale=s, tol=tol)
    for mu, (a, b, s) in enumerate(zip(go, O, os_)):
        ctx.close(a, b, kind, f"Omega {mu}; {detail}", scale=s, tol=tol)


def same_comps(ctx, a, b, kind, detail="", tol=1e-9, scale=None):
    bp, bo = comps(b)
    ps = [float(np.max(np.abs(x), initial=0)) for x in bp]
    os_ = [float(np.max(np.abs(x), initial=0)) for x in bo]
    m = max(ps + os_ + [1e-300]) if scale is None else scale
    check_comps(ctx, a, bp, bo, [m] * len(bp), [m] * len(bo), kind, detail, tol)


def copy_comps(s):
    p, o = comps(s)
    return [x.copy() for x in p], [x.copy() for x in o]


def comps_equal(ctx, s, saved, kind, detail=""):
    p, o = comps(s)
    ctx.check(len(p) == len(saved[0]) and len(o) == len(saved[1]), kind, detail)
    for a, b in zip(p + o, saved[0] + saved[1]):
        ctx.equal(a, b, kind, detail)


# ------------------------------------------------------------------ snapshots
def snapshot(obj, depth=0):
    """Deep copy of the visible value of an object, for `unchanged`."""
    if depth > 8:
        return ("any",)
    if isinstance(obj, np.ndarray):
        return ("nd", obj.copy())
    if isinstance(obj, (int, float, str, bytes, bool, type(None), complex, np.generic)):
        return ("val", obj)
    if isinstance(obj, (list, tuple)):
        return ("seq", [snapshot(x, depth + 1) for x in obj])
    if isinstance(obj, type) or callable(obj) and not hasattr(obj, "__dict__"):
        return ("any",)
    if hasattr(obj, "__dict__"):
        return ("obj", {k: snapshot(v, depth + 1) for k, v in vars(obj).items()
                        if not k.startswith("_") and k != "dict"})
    return ("any",)


def unchanged(obj, snap):
    """None, or a description of what differs.  New attributes are allowed
    (caches are judged by what they do)."""
    k = snap[0]
    if k == "any":
        return None
    if k == "nd":
        if not isinstance(obj, np.ndarray) or obj.shape != snap[1].shape:
            return "array replaced"
        if not np.array_equal(obj, snap[1], equal_nan=obj.dtype.kind == "f"):
            return "array values changed"
        return None
    if k == "val":
        v = snap[1]
        same = obj == v or (obj != obj and v != v)
        return None if same else f"{v!r} became {obj!r}"
    if k == "seq":
        if not isinstance(obj, (list, tuple)) or len(obj) != len(snap[1]):
            return "list length changed"
        for i, (a, b) in enumerate(zip(obj, snap[1])):
            r = unchanged(a, b)
            if r:
                return f"[{i}]: {r}"
        return None
    for key, v in snap[1].items():
        if key not in vars(obj):
            return f".{key} disappeared"
        r = unchanged(vars(obj)[key], v)
        if r:
            return f".{key}: {r}"
    return None
