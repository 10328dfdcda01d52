"""A pool of live tensors under a history of operations, against dense arrays.

The pool holds tensors of all formats and linear maps in tensor-train form, with
an independently computed dense array for each.  Operations add tensors, change
a tensor's own data, accumulate in place, fail at a seeded point and are retried,
or run in concurrent tasks; after every step every live tensor must still
represent its array."""
import copy

import numpy as np

from dst import model as M
from dst.harness import gen_sched
from dst.sim import Injection, SimKill

ID = "C09"

NEW = ["add", "sub", "mul", "rmul", "div", "neg", "T", "dense", "to_sparse", "split", "tt_add", "round", "orth",
       "tt_svd", "weights", "apply", "apply_sum", "precond", "to_tt", "eye", "tt_round_sum", "sketch", "sketch"]
QUERY = ["dot", "norm", "error", "gather", "size", "svdvals", "partial", "dense_value", "entry"]
MUT = ["inplace", "setitem", "reassign", "iadd", "iadd", "iadd"]


class InjMem(MemoryError):
    pass


class InjKI(KeyboardInterrupt):
    pass


def gen_leaf(rng, shape):
    kind = rng.choice(list(M.KINDS) + ["dense", "sparse", "tt"])
    s = M.gen_tensor(rng, shape, kind)
    r = rng.random()
    if kind == "dense" and r < 0.4:
        s["layout"] = rng.choice(["F", "neg", "int", "view"])
    if kind == "tt" and r < 0.08:
        s["zero"] = True
    if kind in ("tt", "cp", "tucker") and 0.1 < r < 0.25:
        s["layout"] = rng.choice(["F", "int"])
    if "layout" in s or s.get("how") == "int":
        s.pop("how", None)
    return s


def gen(rng, tier):
    if rng.random() < 0.06:
        shape = [rng.randint(1, 6)]
    else:
        shape = M.gen_shape(rng, maxsize=80 if tier == "quick" else 140)
    if rng.random() < 0.3:  # palindromes meet their transposes
        for i in range(len(shape) // 2):
            shape[-1 - i] = shape[i]
    leaves = [gen_leaf(rng, shape) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.25:
        leaves.append({"kind": "sum", "shape": shape, "parts": [gen_leaf(rng, shape) for _ in range(rng.randint(0, 3))]})
    d = len(shape)
    for _ in range(rng.choice([0, 1, 1, 2])):
        out = shape if rng.random() < 0.6 else [rng.randint(1, 4) for _ in shape]
        leaves.append({"kind": "mpo", "in": shape, "out": out, "rank": M.gen_rank(rng, d, 1, 2), "seed": rng.getrandbits(31)})
    if rng.random() < 0.3:
        leaves.append({"kind": "precond", "shape": shape, "mode": rng.randrange(d), "seed": rng.getrandbits(31)})
    ops = []
    for _ in range(rng.randint(3, 12 if tier == "quick" else 25)):
        r = rng.random()
        if r < 0.14:
            ops.append({"op": "par", "tasks": [[gen_op(rng, True) for _ in range(rng.randint(1, 2))]
                                               for _ in range(rng.choice([2, 2, 3]))]})
        else:
            ops.append(gen_op(rng, False))
    return {"params": {"leaves": leaves}, "ops": ops, "sched": gen_sched(rng, none=0.15)}


def gen_op(rng, pure):
    r = rng.random()
    name = rng.choice(NEW) if r < 0.5 else rng.choice(QUERY) if r < 0.72 or pure else rng.choice(MUT)
    o = {"op": name, "a": rng.randrange(1000), "b": rng.randrange(1000),
         "c": rng.choice([2.0, -1.5, 0.25, 3, -1, 0.0, 1, 1.0]), "s": rng.getrandbits(31)}
    if not pure and rng.random() < 0.12:
        o["fail"] = [{"k": rng.choice([1, 2, 3, 5, 8, 13, 25, 50, 100]), "exc": rng.choice(["mem", "ki"])}
                     for _ in range(rng.choice([1, 1, 2]))]
    return o


class E:
    """A live tensor, its dense array, and the size of rounding errors in it."""

    def __init__(self, obj, x, amp, kind):
        self.obj, self.x, self.amp, self.kind = obj, np.array(x, dtype=float), float(amp) + 1e-30, kind


def build_leaf(s):
    from tt_sketch import tensor as t
    from tt_sketch.tt_gmres import MPO

    if s["kind"] == "mpo":
        r = np.random.RandomState(s["seed"])
        rk = [1] + list(s["rank"]) + [1]
        cores = [r.standard_normal((rk[i], a, b, rk[i + 1])) for i, (a, b) in enumerate(zip(s["in"], s["out"]))]
        x = cores[0]
        for c in cores[1:]:
            x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
        amp = np.prod([np.linalg.norm(c) for c in cores])
        return E(MPO([c.copy() for c in cores]), x.reshape(x.shape[1:-1]), amp, "mpo")
    if s["kind"] == "sum":
        ps = [build_leaf(p) for p in s["parts"]]
        sh = tuple(s["shape"])
        return E(t.TensorSum([p.obj for p in ps], shape=sh), sum((p.x for p in ps), np.zeros(sh)), sum(p.amp for p in ps), "sum")
    if s.get("zero"):
        return E(t.TensorTrain.zero(tuple(s["shape"]), tuple(s["rank"])), np.zeros(s["shape"]), 0.0, "tt")
    obj, x = M.build(s)
    lay = s.get("layout")
    k = s["kind"]
    if lay == "int":  # integer data
        if k == "dense":
            obj.data = np.round(obj.data * 3).astype(np.int64)
            x = obj.data.astype(float)
        elif k == "tt" or k == "cp":
            for i in range(len(obj.cores)):
                obj.cores[i] = np.round(obj.cores[i] * 2).astype(np.int64)
            x = dense_of(k, obj.cores)
    elif lay == "F":
        if k == "dense":
            obj.data = np.asfortranarray(obj.data)
        elif k in ("tt", "cp"):
            for i in range(len(obj.cores)):
                obj.cores[i] = np.asfortranarray(obj.cores[i])
        else:
            obj.core = np.asfortranarray(obj.core)
    elif lay == "neg":
        obj.data = np.ascontiguousarray(obj.data[::-1])[::-1]
    elif lay == "view":
        big = np.zeros(tuple(2 * n for n in obj.data.shape))
        v = big[tuple(slice(0, None, 2) for _ in obj.data.shape)]
        v[...] = obj.data
        obj.data = v
    return E(obj, x, amp_of(obj, k), k)


def dense_of(kind, cores):
    """Independent dense value of cores."""
    cores = [np.asarray(c, dtype=float) for c in cores]
    if kind == "tt":
        x = cores[0]
        for c in cores[1:]:
            x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
        return x.reshape(x.shape[1:-1])
    x = 0
    for j in range(cores[0].shape[1]):
        y = cores[0][:, j]
        for c in cores[1:]:
            y = np.multiply.outer(y, c[:, j])
        x = x + y
    return x


def dense_tucker(core, factors):
    x = np.asarray(core, dtype=float)
    for f in factors:
        x = np.tensordot(x, np.asarray(f, dtype=float), axes=(0, 0))
    return x


def own_dense(e):
    """Dense value of a leaf from its own data, independent of the code."""
    o = e.obj
    if e.kind == "dense":
        return np.array(o.data, dtype=float)
    if e.kind == "sparse":
        x = np.zeros(o.shape)
        for p, v in zip(np.array(o.indices).T, o.entries):
            x[tuple(p)] = v
        return x
    if e.kind == "tucker":
        return dense_tucker(o.core, o.factors)
    if e.kind == "mpo":
        x = np.asarray(o.cores[0])
        for c in o.cores[1:]:
            x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
        return x.reshape(x.shape[1:-1])
    return dense_of(e.kind, o.cores)


def amp_of(o, kind):
    if kind == "dense":
        return np.linalg.norm(o.data)
    if kind == "sparse":
        return np.linalg.norm(o.entries)
    if kind == "tucker":
        return np.linalg.norm(o.core) * np.prod([np.linalg.norm(f) for f in o.factors])
    return np.prod([np.linalg.norm(c) for c in o.cores])


def arrays(o, depth=0):
    """All arrays that make up a tensor."""
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from arrays(x, depth + 1)
    elif hasattr(o, "__dict__") and depth < 8:
        for k in sorted(vars(o)):
            yield from arrays(vars(o)[k], depth + 1)


def contains(o, x, depth=0):
    """Is the object x a part of o?"""
    if o is x:
        return True
    return depth < 8 and any(contains(t, x, depth + 1) for t in getattr(o, "tensors", ()))


TENSOR = ("dense", "sparse", "tt", "cp", "tucker", "sum")


class Pool:
    def __init__(self, ctx, sim, leaves):
        self.ctx, self.sim = ctx, sim
        self.live = []
        self.precond = []
        for s in leaves:
            if s["kind"] == "precond":
                from tt_sketch.tt_gmres import TTPrecond

                n = s["shape"][s["mode"]]
                r = np.random.RandomState(s["seed"])
                A = np.eye(n) * 3 + 0.4 * r.standard_normal((n, n))
                self.precond.append((TTPrecond(A.copy(), tuple(s["shape"]), mode=s["mode"]), A, s["mode"], tuple(s["shape"])))
            else:
                self.live.append(build_leaf(s))

    def put(self, e):
        if e.amp > 1e60 or e.x.size > 400:
            return
        self.live.append(e)
        if len(self.live) > 12:
            self.live.pop(0)

    def pick(self, n, kinds=TENSOR, ok=lambda e: True):
        c = [e for e in self.live if e.kind in kinds and ok(e)]
        return c[n % len(c)] if c else None

    def mate(self, n, a, kinds=TENSOR):
        if a.kind == "mpo" or any_mpo(a):
            return self.pick(n, ("mpo", "sum"), lambda e: e.x.shape == a.x.shape and (e.kind == "mpo" or any_mpo(e)))
        return self.pick(n, kinds, lambda e: e.x.shape == a.x.shape and not any_mpo(e))

    def retire(self, pred):
        self.live = [e for e in self.live if not pred(e)]

    # ---------------------------------------------------------------- checks
    def value(self, e, what):
        got = e.obj.to_numpy()
        self.ctx.check(isinstance(got, np.ndarray) and got.shape == e.x.shape, "shape of the dense value is wrong",
                       f"{what}: {getattr(got, 'shape', type(got))} for {e.x.shape}")
        self.ctx.close(got, e.x, "tensor does not represent its array", f"{e.kind}, {what}", scale=e.amp, tol=1e-10)
        if e.kind != "mpo" and not any_mpo(e):
            self.ctx.check(tuple(e.obj.shape) == e.x.shape and e.obj.ndim == e.x.ndim, "shape attribute is wrong",
                           f"{what}: {e.obj.shape} for {e.x.shape}")

    def check_all(self, what):
        for e in self.live:
            self.value(e, what)


def any_mpo(e):
    return e.kind == "sum" and len(e.obj.tensors) > 0 and any(deep_mpo(t) for t in e.obj.tensors)


def deep_mpo(t):
    return type(t).__name__ == "MPO" or any(deep_mpo(x) for x in getattr(t, "tensors", ()))


def shape_T(e):
    if e.kind == "mpo" or any_mpo(e):
        d = e.x.ndim // 2
        return e.x.transpose([a for i in range(d) for a in (2 * i + 1, 2 * i)])
    return e.x.T


def run_new(P, o):
    """An operation that makes a new tensor; returns E or None if there is no
    suitable operand."""
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, round_tt_sum
    from tt_sketch.tt_svd import tt_svd

    op, c, ctx = o["op"], o["c"], P.ctx
    allk = TENSOR + ("mpo",)
    if op in ("add", "sub"):
        a = P.pick(o["a"], allk)
        b = P.mate(o["b"], a)
        if b is None:
            return None
        r = a.obj + b.obj if op == "add" else a.obj - b.obj
        return E(r, a.x + b.x if op == "add" else a.x - b.x, a.amp + b.amp, "sum")
    if op == "sketch":
        a = P.pick(o["a"], ok=lambda e: not any_mpo(e) and e.x.ndim > 1 and len(getattr(e.obj, "tensors", [1])) > 0)
        return a and sketched(a, o["s"])
    if op in ("mul", "rmul", "div", "neg"):
        a = P.pick(o["a"], allk + ("stt",))
        if o["s"] % 3 == 0:
            c = np.float64(c)
        if op == "div":
            c = c or 2.0
            return E(a.obj / c, a.x / c, a.amp / abs(c), a.kind)
        if op == "neg":
            return E(-a.obj, -a.x, a.amp, a.kind)
        r = a.obj * c if op == "mul" else c * a.obj
        return E(r, a.x * float(c), a.amp * abs(c), a.kind)
    if op == "T":
        a = P.pick(o["a"], allk + ("stt",))
        return E(a.obj.T, shape_T(a), a.amp, a.kind)
    if op == "dense":
        a = P.pick(o["a"], TENSOR + ("stt",), ok=lambda e: not any_mpo(e))
        return a and E(a.obj.dense(), a.x, a.amp, "dense")
    if op == "to_sparse":
        a = P.pick(o["a"], ("dense",))
        return a and E(a.obj.to_sparse(), a.x, a.amp, "sparse")
    if op == "split":
        a = P.pick(o["a"], ("sparse",))
        if a is None:
            return None
        n = 1 + o["s"] % 4
        r = a.obj.split(n)
        ctx.check(r.num_summands == n, "split gives another number of parts", f"{r.num_summands} for {n}")
        ctx.check(sum(t.nnz for t in r.tensors) == a.obj.nnz, "split loses or repeats entries", "")
        return E(r, a.x, a.amp, "sum")
    if op == "tt_add":
        a = P.pick(o["a"], ("tt",))
        b = a and P.mate(o["b"], a, ("tt",))
        return b and E(a.obj.add(b.obj), a.x + b.x, a.amp + b.amp, "tt")
    if op == "round":
        a = P.pick(o["a"], ("tt",))
        if a is None:
            return None
        m = o["s"] % 6
        d = len(a.x.shape)
        kw = [{}, {"eps": 0}, {"eps": 1e-13}, {"max_rank": 1000}, {"max_rank": tuple(a.obj.rank)}, {"max_rank": (500,) * (d - 1), "eps": 0.0}][m]
        t = a.obj
        if o["s"] % 7 == 0:
            t = t.orthogonalize()
            kw["orthogonalized"] = True
        snap = M.snapshot(t)
        r = t.round(**kw)
        c = M.unchanged(t, snap)
        ctx.check(c is None, "rounding changed the tensor train", f"{kw}{c}")
        check_orth(P, r, "right", a)
        return E(r, a.x, a.amp, "tt")
    if op == "orth":
        a = P.pick(o["a"], ("tt",))
        if a is None:
            return None
        r = a.obj.orthogonalize()
        check_orth(P, r, "left", a)
        return E(r, a.x, a.amp, "tt")
    if op == "tt_svd":
        a = P.pick(o["a"], ok=lambda e: not any_mpo(e) and e.x.ndim > 1)
        if a is None:
            return None
        r = tt_svd(a.obj, **[{}, {"rank": 1000}][o["s"] % 2])
        return E(r, a.x, a.amp, "tt")
    if op == "weights":
        a = P.pick(o["a"], ("sum",), lambda e: all(hasattr(t, "to_numpy") for t in e.obj.tensors))
        if a is None:
            return None
        n = len(a.obj.tensors)
        w = np.random.RandomState(o["s"]).choice([2.0, -1.0, 0.5, 0.0, 3.0], size=n)
        x = np.zeros(a.x.shape)
        for t, v in zip(a.obj.tensors, w):
            x = x + model_value(P, t) * v
        arg = [w, list(w), tuple(w), (float(v) for v in w)][o["s"] % 4]
        r = a.obj * arg if o["s"] % 3 else a.obj.__rmul__(arg)
        return E(r, x, a.amp * (np.max(np.abs(w), initial=0) + 1), "sum")
    if op in ("apply", "apply_sum"):
        A = P.pick(o["a"], ("mpo",))
        if A is None:
            return None
        ins = A.x.shape[0::2]
        if op == "apply":
            t = P.pick(o["b"], ("tt",), lambda e: e.x.shape == ins)
            if t is None:
                return None
            return E(A.obj(t.obj), apply(A.x, t.x), A.amp * t.amp, "tt")
        t = P.pick(o["b"], ("tt", "sum"), lambda e: e.x.shape == ins and (e.kind == "tt" or only_tt(e.obj)))
        B = P.pick(o["s"], ("mpo",), lambda e: e.x.shape == A.x.shape)
        if t is None:
            return None
        r = TTLinearMapSum([A.obj, B.obj])(t.obj)
        return E(r, apply(A.x, t.x) + apply(B.x, t.x), (A.amp + B.amp) * t.amp, "sum")
    if op == "precond":
        if not P.precond:
            return None
        p, A, mode, sh = P.precond[o["a"] % len(P.precond)]
        t = P.pick(o["b"], ("tt",), lambda e: e.x.shape == sh)
        if t is None:
            return None
        if o["s"] % 3 == 0:
            r, m = p.forward_call(t.obj), A
        else:
            r, m = (p(t.obj) if o["s"] % 3 == 1 else p.backward_call(t.obj)), np.linalg.inv(A)
        x = np.moveaxis(np.tensordot(m, t.x, axes=(1, mode)), 0, mode)
        return E(r, x, t.amp * 10, "tt")
    if op == "to_tt":
        a = P.pick(o["a"], ("mpo",))
        if a is None:
            return None
        r = a.obj.to_tt()
        return E(r, a.x.reshape([m * n for m, n in zip(a.x.shape[0::2], a.x.shape[1::2])]), a.amp, "tt")
    if op == "eye":
        a = P.pick(o["a"], ok=lambda e: not any_mpo(e))
        if a is None or a.x.ndim > 3:
            return None
        x = np.array(1.0)
        for n in a.x.shape:
            x = np.multiply.outer(x, np.eye(n))
        return E(MPO.eye(a.x.shape), x, np.linalg.norm(x), "mpo")
    if op == "tt_round_sum":
        a = P.pick(o["a"], ("sum",), lambda e: only_tt(e.obj) and len(e.obj.tensors) > 0)
        if a is None:
            return None
        r = round_tt_sum(a.obj, max_rank=1000, eps=None, method=["exact", "pairwise"][o["s"] % 2])
        return E(r, a.x, a.amp, "tt")
    raise AssertionError(op)


def sketched(a, seed):
    """A sketch of a as a tensor of its own, if it is well conditioned."""
    from tt_sketch.sketch import stream_sketch

    r = np.random.RandomState(seed)
    d = a.x.ndim
    lo = tuple(int(v) for v in r.randint(1, 3, size=d - 1))
    hi = tuple(v + 1 + int(r.randint(0, 2)) for v in lo)
    left, right = (lo, hi) if seed % 2 else (hi, lo)
    y = stream_sketch(a.obj, left, right, seed=seed)
    om, ps = [np.asarray(m) for m in y.Omega_mats], [np.asarray(c) for c in y.Psi_cores]
    amp = np.prod([np.linalg.norm(c) for c in ps])
    for m in om:
        s = np.linalg.svd(m, compute_uv=False)
        if not s[-1] > 1e-3 * s[0] > 0:
            return None
        amp /= s[-1]
    bigl = all(p > q for p, q in zip(y.left_rank, y.right_rank))
    x = np.ones((1, 1))
    for i, c in enumerate(ps):  # the defining product of the components
        if bigl and i > 0:
            c = np.tensordot(np.linalg.pinv(om[i - 1]), c, axes=(1, 0))
        elif not bigl and i < d - 1:
            c = np.tensordot(c, np.linalg.pinv(om[i]), axes=(2, 0))
        x = np.tensordot(x, c, axes=(x.ndim - 1, 0))
    return E(y, x.reshape(x.shape[1:-1]), amp, "stt")


def only_tt(o):
    return all(type(t).__name__ == "TensorTrain" for t in o.tensors)


def model_value(P, t):
    """Dense value of a summand, from its own data."""
    n = type(t).__name__
    kinds = {"DenseTensor": "dense", "SparseTensor": "sparse", "TensorTrain": "tt", "CPTensor": "cp", "TuckerTensor": "tucker", "MPO": "mpo"}
    if n in kinds:
        e = E(t, 0, 0, kinds[n])
        return own_dense(e)
    return sum((model_value(P, x) for x in t.tensors), 0.0) if t.tensors else np.zeros(t.shape)


def apply(Ax, x):
    d = Ax.ndim // 2
    return np.tensordot(Ax, x, axes=(list(range(0, 2 * d, 2)), list(range(d))))


def check_orth(P, r, side, a):
    if a.amp == 0 or np.linalg.norm(a.x) < 1e-6 * a.amp:
        return
    cs = r.cores[:-1] if side == "left" else r.cores[1:]
    for c in cs:
        m = c.reshape(-1, c.shape[2]) if side == "left" else c.reshape(c.shape[0], -1).T
        P.ctx.close(m.T @ m, np.eye(m.shape[1]), f"cores are not {side}-orthogonal", "", scale=1.0, tol=1e-9)


def run_query(P, o):
    op, ctx = o["op"], P.ctx
    a = P.pick(o["a"], TENSOR + ("mpo", "stt"))
    b = P.mate(o["b"], a, TENSOR + ("stt",))
    n2 = float(np.sum(a.x * a.x))
    if op == "dense_value":
        P.value(a, "query")
    elif op == "norm":
        ctx.close(a.obj.norm() ** 2, n2, "norm is wrong", a.kind, scale=a.amp ** 2, tol=1e-9)
        if a.kind in ("dense", "sparse", "tt"):
            ctx.close(a.obj.norm(), n2 ** 0.5, "norm is wrong", a.kind, scale=a.amp, tol=1e-9)
    elif b is None:
        pass
    elif op == "dot":
        ref = float(np.sum(a.x * b.x))
        for v, w in ((a.obj.dot(b.obj), "a.dot(b)"), (a.obj @ b.obj, "a @ b"), (b.obj.dot(a.obj), "b.dot(a)")):
            ctx.close(v, ref, "dot product is wrong", f"{w}: {a.kind}, {b.kind}", scale=a.amp * b.amp, tol=1e-9)
    elif op == "error":
        diff, nb = float(np.linalg.norm(a.x - b.x)), float(np.linalg.norm(b.x))
        sc = a.amp + b.amp
        rm = float(np.sqrt(a.x.size))
        w = f"{a.kind}, {b.kind}"
        other = b.obj
        if b.kind == "dense" and o["s"] % 2:
            other = b.obj.data
        ctx.close(a.obj.error(other), diff, "error is wrong", w, scale=sc, tol=1e-9)
        ctx.close(a.obj.error(other, rmse=True) * rm, diff, "root mean square error is wrong", w, scale=sc, tol=1e-9)
        if not (a.kind == "tt" and b.kind in ("tt", "stt")):
            ctx.close(a.obj.error(other, fast=True) ** 2, diff ** 2, "fast error is wrong", w, scale=sc ** 2, tol=1e-9)
        if nb > 0.05 * b.amp:
            ctx.close(a.obj.error(other, relative=True), diff / nb, "relative error is wrong", w, scale=sc / nb, tol=1e-7)
            ctx.close(a.obj.error(other, relative=True, rmse=True) * rm, diff / nb, "relative error is wrong", w + " rmse", scale=sc / nb, tol=1e-7)
            ctx.close(a.obj.error(other, relative=True, fast=True) ** 2, (diff / nb) ** 2, "relative error is wrong", w + " fast",
                      scale=(sc / nb) ** 2, tol=1e-7)
    elif op in ("gather", "entry"):
        a = P.pick(o["a"], ("sparse", "tt", "cp"))
        if a is None:
            return
        n = a.x.size
        k = 1 if op == "entry" else 1 + o["s"] % 9
        pos = np.random.RandomState(o["s"]).randint(0, n, size=k)
        if o["s"] % 11 == 0:
            pos = pos[:0]
        inds = np.unravel_index(pos, a.x.shape)
        if o["s"] % 3 == 0:
            idx = tuple(np.array(i) for i in inds)
        else:
            idx = np.stack(inds)
        keep = copy.deepcopy(idx)
        ctx.close(a.obj.gather(idx), a.x[inds], "entries looked up are wrong", a.kind, scale=a.amp, tol=1e-10)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(idx, keep)), "looking up entries changed the positions", a.kind)
    elif op == "size":
        ctx.check(int(a.obj.size) == size_of(a.obj), "storage size is wrong", f"{a.kind}: {a.obj.size} for {size_of(a.obj)}")
        if a.kind == "sum":
            ctx.check(a.obj.num_summands == len(a.obj.tensors), "number of summands is wrong", "")
        if a.kind == "sparse":
            ctx.check(a.obj.nnz == len(a.obj.entries), "number of nonzeros is wrong", "")
        if a.kind in ("tt", "mpo"):
            ctx.check(tuple(a.obj.rank) == tuple(c.shape[0] for c in a.obj.cores[1:]), "rank attribute is wrong", a.kind)
    elif op == "svdvals":
        a = P.pick(o["a"], ("tt",))
        if a is None:
            return
        s = a.obj.svdvals()
        ctx.check(len(s) == a.x.ndim, "number of modes with singular values is wrong", "")
        for mu in range(1, a.x.ndim):
            t = np.linalg.svd(a.x.reshape(int(np.prod(a.x.shape[:mu])), -1), compute_uv=False)
            k = max(len(t), len(s[mu]))
            ctx.close(np.pad(s[mu], (0, k - len(s[mu]))), np.pad(t, (0, k - len(t))), "singular values are wrong", f"mode {mu}",
                      scale=a.amp, tol=1e-9)
    elif op == "partial":
        a = P.pick(o["a"], ("tt",), lambda e: e.x.ndim > 1)
        if a is None:
            return
        l, r = a.obj.partial_dense("lr"), a.obj.partial_dense("rl")
        d = a.x.ndim
        for mu in range(d - 1):
            ctx.close(l[mu] @ r[d - 2 - mu], a.x.reshape(l[mu].shape[0], -1), "partial contractions are wrong", f"{mu}",
                      scale=a.amp, tol=1e-10)


def size_of(o):
    n = type(o).__name__
    if n == "TensorSum":
        return sum(size_of(t) for t in o.tensors)
    if n == "SparseTensor":
        return len(o.entries) * (len(o.shape) + 1)
    if n == "DenseTensor":
        return int(np.asarray(o.data).size)
    if n == "SketchedTensorTrain":
        return int(sum(c.size for c in o.Psi_cores) + sum(c.size for c in o.Omega_mats))
    if n == "TuckerTensor":
        return int(o.core.size + sum(f.size for f in o.factors))
    return int(sum(c.size for c in o.cores))


def run_mut(P, o):
    """Changes a tensor's own data, or accumulates into a sum."""
    op, c, ctx = o["op"], o["c"], P.ctx
    r = np.random.RandomState(o["s"])
    if op == "iadd":
        a = P.pick(o["a"], ("sum",) if o["s"] % 5 else TENSOR, lambda e: not any_mpo(e))
        b = a and P.mate(o["b"], a)
        if b is None:
            return False
        if o["s"] % 9 == 0:
            b = a
        x = a.obj
        new = a.x + b.x
        if a.kind != "sum":
            x += b.obj
            ctx.check(x is not a.obj, "in-place addition replaced a tensor that is not a sum", a.kind)
            P.put(E(x, new, a.amp + b.amp, "sum"))
            return True
        bl = len(b.obj.tensors) if b.kind == "sum" else 1
        n = len(a.obj.tensors)
        x += b.obj
        ctx.check(x is a.obj, "in-place addition made a new object", "")
        ctx.check(len(a.obj.tensors) == n + bl, "in-place addition appended another number of summands", f"{n} + {bl} -> {len(a.obj.tensors)}")
        # other sums that hold this very sum as a part change by design
        P.retire(lambda e: e is not a and contains(e.obj, a.obj))
        a.x, a.amp = new, a.amp + b.amp
        return True
    a = P.pick(o["a"], ("dense", "sparse", "tt", "cp", "tucker"))
    if a is None:
        return False
    # a sum holds its summands by design; no other result is its operand itself
    P.retire(lambda e: e is not a and e.obj is not a.obj and contains(e.obj, a.obj))
    # fill whatever is cached
    if hasattr(a.obj, "gather"):
        a.obj.gather(np.zeros((a.x.ndim, 1), dtype=np.int64))
    a.obj.norm(), a.obj.dot(a.obj), a.obj.size, a.obj.to_numpy()
    if op == "inplace":
        arrs = {"dense": lambda: [a.obj.data], "sparse": lambda: [a.obj.entries], "tt": lambda: a.obj.cores,
                "cp": lambda: a.obj.cores, "tucker": lambda: list(a.obj.factors) + [a.obj.core]}[a.kind]()
        v = arrs[o["b"] % len(arrs)]
        if not v.flags.writeable or v.size == 0:
            return False
        # views of the same memory change by design
        P.retire(lambda e: e is not a and any(np.may_share_memory(v, w) for w in arrays(e.obj)))
        for w in arrs:
            if w is not v and np.may_share_memory(v, w):
                return False
        k = o["s"] % 3
        if k == 0 and v.dtype.kind == "f":
            v *= c or 0.5
        elif k == 1:
            v.flat[o["b"] % v.size] = 7
        else:
            v[...] = v[::-1].copy()
    elif op == "setitem":
        if a.kind not in ("tt", "cp"):
            return False
        k = o["b"] % len(a.obj.cores)
        a.obj[k] = r.standard_normal(a.obj[k].shape)
    elif op == "reassign":
        if a.kind == "dense":
            a.obj.data = r.standard_normal(a.x.shape)
        elif a.kind == "sparse":
            n = a.x.size
            m = len(a.obj.entries) if o["s"] % 2 else int(r.randint(0, n + 1))
            pos = r.permutation(n)[:m]
            a.obj.indices = np.stack(np.unravel_index(pos, a.x.shape))
            a.obj.entries = r.standard_normal(m)
        elif a.kind == "tucker":
            a.obj.core = r.standard_normal(a.obj.core.shape)
        else:
            k = o["b"] % len(a.obj.cores)
            a.obj.cores[k] = r.standard_normal(a.obj.cores[k].shape)
    a.x = own_dense(a)
    a.amp = float(amp_of(a.obj, a.kind)) + 1e-30
    return True


def attempt(P, sim, o, fn):
    """Run fn, with injected failures before it; returns its result."""
    me = sim.current
    for f in o.get("fail", ()):
        snap = [M.snapshot(e.obj) for e in P.live]
        inj = Injection(f["k"], InjMem if f["exc"] == "mem" else InjKI, tasks=lambda t: t is me)
        sim.injections = [inj]
        err = None
        try:
            r = fn()
        except SimKill:
            raise
        except (InjMem, InjKI) as e:
            err = type(e).__name__
        finally:
            sim.injections = []
        if inj.fired is None:
            return r
        P.ctx.probe("failed operation")
        P.ctx.check(err is not None, "error swallowed", f"{o['op']} {inj.fired}")
        for e, s in zip(P.live, snap):
            d = M.unchanged(e.obj, s)
            P.ctx.check(d is None, "a failed operation changed a live tensor", f"{o['op']}, {e.kind}{d}; {inj.fired}")
    return fn()


def run(plan, ctx):
    def root(sim):
        P = Pool(ctx, sim, plan["params"]["leaves"])
        for o in plan["ops"]:
            op = o["op"]
            if op == "par":
                def body(ops):
                    out = []
                    for q in ops:
                        if q["op"] in NEW:
                            out.append(run_new(P, q))
                        else:
                            run_query(P, q)
                    return out

                snap = [M.snapshot(e.obj) for e in P.live]
                ts = [sim.spawn(body, ops, name=f"t{i}") for i, ops in enumerate(o["tasks"])]
                sim.join(*ts)
                for t in ts:
                    if t.exc is not None:
                        raise t.exc
                unchanged(P, snap, "concurrent queries")
                for t in ts:
                    for e in t.result:
                        if e is not None:
                            P.value(e, "made by a concurrent task")
                            P.put(e)
                ctx.probe("concurrent")
            elif op in MUT:
                if run_mut(P, o):
                    ctx.probe(op)
            else:
                snap = [M.snapshot(e.obj) for e in P.live]
                live = list(P.live)
                if op in NEW:
                    e = attempt(P, sim, o, lambda: run_new(P, o))
                    if e is not None:
                        ctx.probe(op)
                        P.value(e, f"result of {op}")
                else:
                    attempt(P, sim, o, lambda: run_query(P, o))
                    ctx.probe(op)
                    e = None
                unchanged(P, snap, op, live)
                if e is not None:
                    P.put(e)
            ctx.event(op, len(P.live))
            P.check_all(f"after {op}")

    ctx.run_sim(root, max_steps=6000000)
    ctx.nontrivial = True


def unchanged(P, snap, what, live=None):
    for e, s in zip(live or P.live, snap):
        d = M.unchanged(e.obj, s)
        P.ctx.check(d is None, "an operation changed another live tensor", f"{what}: {e.kind}{d}")


def simplify(plan):
    for i in range(len(plan["params"]["leaves"])):
        if len(plan["params"]["leaves"]) > 1:
            p = copy.deepcopy(plan)
            del p["params"]["leaves"][i]
            yield p
