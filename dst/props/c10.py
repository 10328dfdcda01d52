"""Recovery of tensors of sufficiently low rank, for seeds and entropy supplied
by the simulator, under arbitrary worker schedules and concurrent callers."""
import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import gen_sched

ID = "C10"
EPS = 2.3e-16
HARD = 1e9  # amplification beyond which rounding errors prove nothing


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        meth = rng.choice(["stream", "stream", "orth", "hmt"])
        cl = rng.choice([None, "TT", "TT", "DG", "SG", "SS"])
        cr = cl if rng.random() < 0.6 else rng.choice([None, "TT", "DG", "SG", "SS"])
        el, er = cl or cr or "TT", cr or cl or "TT"
        kinds = M.SUPPORT[er] if meth == "hmt" else [k for k in M.SUPPORT[el] if k in M.SUPPORT[er]]
        if meth == "orth" or meth == "hmt":
            kinds = [k for k in kinds]
        shape = M.gen_shape(rng, maxsize=200, dmax=5)
        threads.append({
            "method": meth, "cl": cl, "cr": cr, "t": low(rng, shape, kinds),
            "extra": [rng.choice([0, 0, 1, 2]) for _ in shape[1:]], "over": [rng.randint(1, 3) for _ in shape[1:]],
            "int": rng.random() < 0.3, "left_big": rng.random() < 0.5 and meth == "stream",
            "explicit": rng.random() < 0.2 and meth != "hmt",
            "seeds": [rng.choice([None, rng.getrandbits(31), rng.randrange(2 ** 31, 2 ** 32 - 2), rng.getrandbits(6)])] + [rng.getrandbits(31) for _ in range(5)],
            "noise": rng.choice([0, 0, 1e-8]), "nseed": rng.getrandbits(31),
        })
    return {"params": {"cpu": rng.choice([1, 2, 3, 8, 64])}, "threads": [[t] for t in threads], "sched": gen_sched(rng)}


def low(rng, shape, kinds):
    """A tensor in one of the formats; sparse and dense ones mostly of low rank."""
    kind = rng.choice(kinds)
    if rng.random() < 0.3 and len(kinds) > 0:
        n = rng.randint(1, 3)
        return {"kind": "sum", "shape": shape, "parts": [low1(rng, shape, rng.choice(kinds)) for _ in range(n)]}
    return low1(rng, shape, kind)


def low1(rng, shape, kind):
    if kind in ("sparse", "dense") and rng.random() < 0.75:
        t = M.gen_tensor(rng, shape, "tt")
        if rng.random() < 0.3:
            t["decay"] = rng.choice([1e-3, 1e-5, 1e-6, 1e-7])
        return dict(t, kind="low-" + kind)
    return M.gen_tensor(rng, shape, kind)


def build(spec):
    from tt_sketch import tensor as T

    if spec["kind"] == "sum":
        parts = [build(p) for p in spec["parts"]]
        return T.TensorSum([p[0] for p in parts]), sum(p[1] for p in parts)
    if spec["kind"].startswith("low-"):
        x = M.build(dict(spec, kind="tt"))[1]
        if spec.get("decay"):  # one more, much smaller term
            y = M.build({"kind": "tt", "shape": spec["shape"], "seed": spec["seed"] + 1, "rank": [1] * (x.ndim - 1)})[1]
            x = x + y * (spec["decay"] * np.linalg.norm(x) / max(np.linalg.norm(y), 1e-300))
        if spec["kind"] == "low-dense":
            return T.DenseTensor(x.copy()), x
        idx = np.stack(np.nonzero(np.ones(x.shape)))
        return T.SparseTensor(x.shape, idx, x.reshape(-1).copy()), x
    return M.build(spec)


def unfold_ranks(x):
    """Ranks of the unfoldings, or None if they are not clear-cut."""
    out = []
    for mu in range(x.ndim - 1):
        s = np.linalg.svd(x.reshape(int(np.prod(x.shape[: mu + 1])), -1), compute_uv=False)
        if s[0] == 0:
            out.append(0)
            continue
        r = int((s > 1e-10 * s[0]).sum())
        if s[r - 1] < 1e-8 * s[0] or (r < len(s) and s[r] > 1e-13 * s[0]):
            return None
        out.append(r)
    return out


def kappa(x, tr, L, R):
    """Bound on the amplification of rounding errors with these maps."""
    amp = 1.0
    for mu in range(x.ndim - 1):
        m = x.reshape(int(np.prod(x.shape[: mu + 1])), -1)
        r = R[mu].reshape(R[mu].shape[0], -1)
        om, l2 = m @ r.T, 1.0
        if L is not None:
            l = L[mu].reshape(L[mu].shape[0], -1)
            om, l2 = l @ om, np.linalg.norm(l, 2)
        s = np.linalg.svd(om, compute_uv=False)
        if len(s) < tr[mu] or s[tr[mu] - 1] < 1e-14 * s[0]:
            return np.inf  # the maps lose part of the tensor
        amp *= l2 * np.linalg.norm(r, 2) * np.linalg.norm(m, 2) / s[tr[mu] - 1]
    return amp


def kappa2(x, tr, L, R):
    """The same for the maps alone: how much they shrink the spaces the tensor
    spans, whatever its singular values are."""
    amp = 1.0
    for mu in range(x.ndim - 1):
        u, s, v = np.linalg.svd(x.reshape(int(np.prod(x.shape[: mu + 1])), -1), full_matrices=False)
        k = max(1, tr[mu])
        for m, b in ((R[mu], v[:k].T), (L[mu] if L is not None else None, u[:, :k])):
            if m is not None:
                m = m.reshape(m.shape[0], -1)
                t = np.linalg.svd(m @ b, compute_uv=False)
                amp *= np.linalg.norm(m, 2) / max(t[-1], 1e-300) if len(t) == k else np.inf
    return amp


def run(plan, ctx):
    from tt_sketch import sketch as K
    from tt_sketch import tensor as T

    items = []
    for th in plan["threads"]:
        for g in th:
            X, x = build(g["t"])
            tr = unfold_ranks(x)
            if tr is None:
                ctx.probe("rank not clear-cut")
                continue
            small = [max(1, a) + e for a, e in zip(tr, g["extra"])]
            if g["explicit"]:
                small = [max(1, a) for a in tr]
            if g["int"] and not g["explicit"]:
                small = [max(small)] * len(small)
            big = [a + (g["over"][0] if g["int"] and not g["explicit"] else o) for a, o in zip(small, g["over"])]
            L, R = (big, small) if g["left_big"] else (small, big)
            if g["noise"]:
                z = np.random.RandomState(g["nseed"]).standard_normal(x.shape)
                z *= g["noise"] * np.linalg.norm(x) / np.linalg.norm(z)
                kinds = {"SG": "sparse", "SS": "sparse"}
                if g["cl"] in kinds or g["cr"] in kinds:
                    idx = np.stack(np.nonzero(np.ones(x.shape)))
                    N = T.SparseTensor(x.shape, idx, z.reshape(-1).copy())
                else:
                    N = T.DenseTensor(z)
                X = X + N
            items.append((g, X, x, tr, L, R))

    def call(g, X, L, R, seed):
        sh = X.shape
        arg = (lambda r: r[0]) if g["int"] else tuple
        cl = M.drm_class(g["cl"]) if g["cl"] else None
        cr = M.drm_class(g["cr"]) if g["cr"] else None
        if g["method"] == "hmt":
            y, r = K.hmt_sketch(X, arg(R), seed=seed, drm_type=cr or cl, return_drm=True)
            return y, None, r
        kw = dict(left_drm_type=cl, right_drm_type=cr)
        if g["explicit"]:
            el, er = cl or cr or M.drm_class("TT"), cr or cl or M.drm_class("TT")
            s = seed if seed is not None else 5
            kw = dict(left_drm=el(tuple(L), sh, transpose=False, seed=s), right_drm=er(tuple(R), sh, transpose=True, seed=s + 1))
            arg = tuple
        f = K.stream_sketch if g["method"] == "stream" else K.orthogonal_sketch
        return f(X, arg(L), arg(R), seed=seed, return_drm=True, **kw)

    results, keep = {}, {}

    def uses(g, X, x, y, dense, tol, what):
        """The result stands for the tensor in every way it can be asked."""
        nrm = float(np.linalg.norm(x))
        z = np.random.RandomState(g["nseed"]).standard_normal(x.shape)
        Z = T.DenseTensor(z)
        nz = float(np.linalg.norm(z))
        ctx.close(y.dot(Z), float(np.sum(x * z)), "dot product with the result is wrong", what, scale=nrm * nz, tol=tol)
        ctx.close(Z.dot(y), float(np.sum(x * z)), "dot product with the result is wrong", "reversed; " + what, scale=nrm * nz, tol=tol)
        ctx.close(y.norm(), nrm, "norm of the result is wrong", what, scale=nrm, tol=tol)
        ctx.close(y.T.to_numpy(), x.T, "transpose of the result is wrong", what, scale=nrm, tol=tol)
        ctx.close((y * -2.0).to_numpy(), -2.0 * x, "multiple of the result is wrong", what, scale=nrm, tol=3 * tol)
        ctx.close((y / 4.0).to_numpy(), x / 4.0, "multiple of the result is wrong", what, scale=nrm, tol=tol)
        e = y.error(X, relative=True)
        ctx.check(e <= tol, "error of the result is wrong", f"{e:.2e} > {tol:.2e}; {what}")
        ctx.close(y.error(Z), float(np.linalg.norm(x - z)), "error of the result is wrong", what, scale=nrm + nz, tol=tol)
        ctx.close(y.error(z, relative=True, rmse=True), float(np.linalg.norm(x - z) / nz / x.size ** 0.5), "error of the result is wrong", what,
                  scale=(nrm + nz) / nz, tol=tol)
        if hasattr(y, "C_cores"):
            L, R = y.left_rank, y.right_rank
            side = "left" if all(a > b for a, b in zip(L, R)) else "right"
            t = T.TensorTrain(y.C_cores(side))
            ctx.close(t.to_numpy(), x, "explicit direction gives another tensor", side + what, scale=nrm, tol=tol)
            lim = R if side == "left" else L
            ctx.check(tuple(t.rank) == tuple(lim), "rank of the assembled train is not the smaller one", f"{t.rank} for {lim}; {what}")
            n = sum(c.size for c in y.Psi_cores) + sum(o.size for o in y.Omega_mats)
            ctx.check(int(y.size) == n, "storage size of a sketch is wrong", f"{y.size} for {n}; {what}")
            try:
                y.C_cores("up")
                ctx.check(False, "unknown direction is not refused", what)
            except ValueError:
                pass
            ctx.close(X.error(y) if not isinstance(X, T.TensorSum) else X.error(y.to_tt()), 0.0, "error against a sketch is wrong", what, scale=nrm, tol=tol)
            ctx.probe("sketch used as a tensor")

    def attempt(i, n):
        g, X, x, tr, L, R = items[i]
        y, l, r = call(g, X, L, R, g["seeds"][n])
        t = y.to_tt() if hasattr(y, "to_tt") else y
        results[i, n] = (np.array(y.to_numpy()), tuple(t.rank), tuple(c.shape for c in t.cores), l, r)
        keep[i, n] = y

    def root(sim):
        tasks = [sim.spawn(attempt, i, 0, name=f"s{i}") for i in range(len(items))]
        sim.join(*tasks)
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        for i, (g, X, x, tr, L, R) in enumerate(items):
            what = f"{g['method']} {g['cl']}/{g['cr']} tensor {g['t']['kind']} {list(x.shape)} ranks {tr} left {L} right {R} int={g['int']} explicit={g['explicit']}"
            n, best, noisy = 0, np.inf, []
            while True:
                y, ranks, cores, l, r = results[i, n]
                ctx.check(y.shape == x.shape, "result has the wrong shape", what)
                lim = R if g["method"] == "hmt" else [min(a, b) for a, b in zip(L, R)]
                ctx.check(all(a <= b for a, b in zip(ranks, lim)), "rank of the result exceeds the requested one", f"{ranks} > {lim}; {what}")
                nrm = np.linalg.norm(x)
                if nrm == 0:
                    ctx.check(float(np.max(np.abs(y), initial=0)) < 1e-13, "zero tensor not recovered", what)
                    break
                Rm = M.maps(r, x.shape, transpose=True)
                Lm = M.maps(l, x.shape, transpose=False) if l is not None else None
                ctx.check(all(m.shape[0] >= t for m, t in zip(Rm, tr)) and (Lm is None or all(m.shape[0] >= t for m, t in zip(Lm, tr))),
                          "maps have fewer rows than the rank of the tensor", f"{[m.shape[0] for m in Rm]}; {what}")
                amp = kappa(x, tr, Lm, Rm)
                best = min(best, amp)
                err = float(np.linalg.norm(y - x) / nrm)
                if g["noise"]:
                    noisy.append(err)
                    if err <= 1e3 * g["noise"]:
                        ctx.probe("recovered up to noise")
                        break
                elif amp < HARD:
                    # small singular values of the tensor itself do no harm
                    # (measured: at most 11 EPS times this over 10^4 runs)
                    tol = max(1e-12, 300 * EPS * kappa2(x, tr, Lm, Rm))
                    ctx.check(err <= tol, "tensor of sufficient rank not recovered",
                              f"relative error {err:.2e}, allowed {tol:.1e}, conditioning {amp:.1e}, seed {g['seeds'][n]}; {what}")
                    ctx.probe("recovered " + g["method"])
                    if 1e-100 < nrm < 1e100:
                        uses(g, X, x, keep[i, n], y, 10 * tol, what)
                    break
                ctx.probe("another draw")
                n += 1
                if "SS" in (g["cl"], g["cr"]) and n > 1:
                    ctx.probe("sign map ill-conditioned")
                    break
                if n >= 5:
                    if g["noise"]:
                        ctx.check(min(noisy) <= 1e5 * g["noise"], "tensor not recovered up to noise", f"relative errors {noisy}; {what}")
                    else:
                        ctx.check(best < np.inf, "every draw of the maps loses part of the tensor", what)
                        ctx.probe("ill-conditioned")
                    break
                attempt(i, n)

    ctx.run_sim(root, cpu=plan["params"]["cpu"], max_steps=6000000)
    ctx.nontrivial = bool(items)


def simplify(plan):
    import copy

    for i, th in enumerate(plan["threads"]):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            yield p
        for g in th:
            if g["t"]["kind"] == "sum":
                for x in g["t"]["parts"]:
                    p = copy.deepcopy(plan)
                    p["threads"][i][0]["t"] = x
                    yield p
