"""The tensor-train solver against a dense model, with clock faults and failing
operators.

Each plan is a system A x = b with a well-conditioned sum of linear maps.  An
undisturbed run gives the reference result of the code itself; a dense GMRES on
the same system gives the reference residuals; the true residual is computed from
dense arrays.  The disturbed run has clock jumps, stalls and skew, and operator or
preconditioner calls that raise, followed by a retry."""
import copy
import os
import shutil
import tempfile

import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import Ctx, gen_sched
from dst.sim import injected

ID = "C11"
METHODS = ["exact", "pairwise", "sketch", "orth_sketch"]


EXC = injected(runtime=RuntimeError, ki=KeyboardInterrupt, linalg=np.linalg.LinAlgError, memory=MemoryError, value=ValueError, type=TypeError, os=OSError,
               attribute=AttributeError, key=KeyError, arith=FloatingPointError, assertion=AssertionError, exit=SystemExit)


def gen(rng, tier):
    d = rng.choice([2, 2, 3, 3, 3, 4])
    while True:
        shape = [rng.randint(2, 5) for _ in range(d)]
        if np.prod(shape) <= 81:
            break
    sym = rng.random() < 0.25
    maps = []
    n = rng.choice([0, 1, 1, 2, 3])
    tot = rng.choice([0.2, 0.4, 0.6])
    for _ in range(n):
        maps.append({"type": "mpo", "rank": [1] * (d - 1) if sym else M.gen_rank(rng, d, 1, 2),
                     "seed": rng.getrandbits(31), "norm": tot / n})
    if rng.random() < 0.12 and not sym:
        maps.append({"type": "inverse", "mode": rng.randrange(d), "seed": rng.getrandbits(31)})
    pre = None
    main = {"type": "eye"}
    if rng.random() < 0.3 and not sym:
        pre = {"mode": rng.randrange(d), "seed": rng.getrandbits(31), "exact": rng.random() < 0.6}
        if pre["exact"]:
            main = {"type": "mode", "mode": pre["mode"], "seed": pre["seed"]}
    maps.insert(rng.randint(0, len(maps)), main)
    p = {"shape": shape, "maps": maps, "symmetric": sym and rng.random() < 0.8, "sym": sym, "precond": pre,
         "b": {"kind": "tt", "shape": shape, "seed": rng.getrandbits(31), "rank": M.gen_rank(rng, d, 1, 2)},
         "bscale": rng.choice([1.0, 1.0, 1e-4, 1e5]),
         "x0": rng.choice(["none", "none", "random", "exact", "near", "zero"]), "x0seed": rng.getrandbits(31),
         "method": rng.choice(METHODS), "final": rng.choice([None, None] + METHODS),
         "tol": rng.choice([1e-3, 1e-5, 1e-6, 1e-8]), "maxiter": rng.choice([50, 50, 50, 1, 2, 4, 7]),
         "limit": rng.choice(["none", "none", "none", "tight", "final"]),
         "maxrank": rng.choice([1000, "tuple"]), "save": rng.random() < 0.4, "verbose": rng.random() < 0.1,
         "cpu": rng.choice([1, 1, 2, 8])}
    if p["limit"] == "tight":
        p["tight"] = M.gen_rank(rng, d, 1, 3)
    if p["limit"] == "final":
        p["tight"] = M.gen_rank(rng, d, 1, 4)
    if rng.random() < 0.12:  # the budget or an exhausted space ends the solver
        p["tol"] = rng.choice([0.0, 0.0, 1e-16])
        p["maxiter"] = rng.choice([3, 6, 12])
        p["symmetric"] = False
        if rng.random() < 0.5:
            p["b"]["unit"] = True
            p["maps"] = [{"type": "eye"}] * rng.randint(1, 2) + [{"type": "diag", "mode": rng.randrange(d)}] * rng.randint(0, 1)
            p["precond"] = None
    elif rng.random() < 0.12:  # the parametric problem of the scripts
        p["cookie"] = {"n": rng.randint(2, 5), "coeffs": 2, "seed": rng.getrandbits(31), "size": rng.choice([0.02, 0.05, 0.1]), "precond": rng.random() < 0.7}
        p["shape"] = shape = [p["cookie"]["n"]] + [2] * 4
        p["symmetric"] = False
        p["precond"] = {"cookie": True} if p["cookie"]["precond"] else None
        p["maps"] = []
        if p["limit"] in ("tight", "final"):
            p["tight"] = M.gen_rank(rng, 5, 1, 3)
    faults = {"jumps": [[rng.random(), rng.choice([1e3, 1e6, 1e10, -5.0, -1e6, 3600.0])] for _ in range(rng.choice([0, 1, 3]))],
              "skew": rng.random() < 0.4, "stall": rng.random() < 0.4, "fseed": rng.getrandbits(31),
              "fail": [{"at": rng.choice([1, 1, 2, 3, 4, 6, 9]), "where": rng.choice(["map", "map", "precond"]),
                        "exc": rng.choice(sorted(EXC))} for _ in range(rng.choice([0, 1, 1, 2]))]}
    return {"params": p, "ops": [], "faults": faults, "sched": gen_sched(rng, none=0.3)}


def mode_matrix(seed, n):
    r = np.random.RandomState(seed)
    q = np.linalg.qr(r.standard_normal((n, n)))[0]
    return q * (1.0 + 0.5 * r.rand(n))  # condition below 1.5


def kron_mode(A, mode, shape):
    m = np.array([[1.0]])
    for i, n in enumerate(shape):
        m = np.kron(m, A if i == mode else np.eye(n))
    return m


def system(p):
    """-> code objects (list of maps, precond, b) and dense A, P^-1, b"""
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import MPO, TTPrecond

    shape = tuple(p["shape"])
    N = int(np.prod(shape))
    if p.get("cookie"):
        return cookie(p, shape)
    maps, A = [], np.zeros((N, N))
    for m in p["maps"]:
        if m["type"] == "eye":
            maps.append(MPO([np.eye(n).reshape(1, n, n, 1) for n in shape]))
            A += np.eye(N)
        elif m["type"] == "diag":
            S = np.diag([1.0 + 0.5 * (i % 2) for i in range(shape[m["mode"]])])
            maps.append(MPO([(S if i == m["mode"] else np.eye(n)).reshape(1, n, n, 1).copy() for i, n in enumerate(shape)]))
            A += kron_mode(S, m["mode"], shape)
        elif m["type"] == "mode":
            S = mode_matrix(m["seed"], shape[m["mode"]])
            maps.append(MPO([(S.T if i == m["mode"] else np.eye(n)).reshape(1, n, n, 1).copy() for i, n in enumerate(shape)]))
            A += kron_mode(S, m["mode"], shape)
        elif m["type"] == "inverse":
            S = 4 * mode_matrix(m["seed"], shape[m["mode"]])
            maps.append(TTPrecond(S, shape, mode=m["mode"]))
            A += kron_mode(np.linalg.inv(S), m["mode"], shape)
        else:
            r = np.random.RandomState(m["seed"])
            rk = [1] + list(m["rank"]) + [1]
            cores = []
            for i, n in enumerate(shape):
                c = r.standard_normal((rk[i], n, n, rk[i + 1]))
                if p["sym"]:
                    c = c + c.transpose(0, 2, 1, 3)
                cores.append(c)
            D = O.mpo_matrix(cores)
            f = m["norm"] / max(np.linalg.norm(D, 2), 1e-12)
            cores[0] = cores[0] * f
            maps.append(MPO(cores))
            A += D * f
    pre, Pinv = None, np.eye(N)
    if p["precond"]:
        q = p["precond"]
        S = mode_matrix(q["seed"] if q["exact"] else q["seed"] ^ 77, shape[q["mode"]])
        pre = TTPrecond(S, shape, mode=q["mode"])
        Pinv = kron_mode(np.linalg.inv(S), q["mode"], shape)
    b, bx = M.build(p["b"])
    if p["b"].get("unit"):
        r = np.random.RandomState(p["b"]["seed"])
        cores = [np.eye(1, n, r.randint(n)).reshape(1, n, 1) for n in shape]
        cores[-1] = cores[-1] + (r.randint(2) if len(p["maps"]) > 1 else 0)
        b, bx = TensorTrain(cores), np.array(1.0)
        for c in cores:
            bx = np.multiply.outer(bx, c[0, :, 0])
    b = TensorTrain([c * (p["bscale"] if i == 0 else 1) for i, c in enumerate(b.cores)])
    return maps, pre, b, A, Pinv, bx.reshape(-1) * p["bscale"]


def cookie(p, shape):
    """The cookie problem of the scripts on small random matrices."""
    import scipy.io
    import scipy.sparse
    from scripts.cookie_problem import prepare_cookie_problem

    c, n = p["cookie"], shape[0]
    r = np.random.RandomState(c["seed"])
    L = np.empty(5, dtype=object)
    mats = []
    for i in range(5):
        q = r.standard_normal((n, n))
        q = q @ q.T
        mats.append(q / np.linalg.norm(q, 2) * c["size"] if i else np.eye(n) + 0.2 * q / np.linalg.norm(q, 2))
        L[i] = scipy.sparse.csc_matrix(mats[i])
    b = r.standard_normal(n)
    old = os.getcwd()
    root = tempfile.mkdtemp(prefix="dst-cookie-")
    try:
        os.mkdir(os.path.join(root, "data"))
        scipy.io.savemat(os.path.join(root, "data", "cookies_matrices_2x2.mat"), {"A": L.reshape(1, 5), "b": b.reshape(-1, 1)})
        os.chdir(root)
        map_sum, B, pre = prepare_cookie_problem(c["coeffs"], 4)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    values = np.linspace(0, 10, c["coeffs"])
    A = np.kron(mats[0], np.eye(2**4))
    for i in range(4):
        A = A + np.kron(mats[i + 1], kron_mode(np.diag(values), i, shape[1:]))
    P = mats[0] + np.mean(values) * sum(mats[1:])
    Pinv = np.kron(np.linalg.inv(P), np.eye(2**4)) if c["precond"] else np.eye(len(A))
    B.cores[0] = B.cores[0] * p["bscale"]
    return list(map_sum.linear_maps), pre if c["precond"] else None, B, A, Pinv, np.kron(b, np.ones(2**4)) * p["bscale"]


def dense_tt(x, shape):
    """Exact tensor train of a dense array (independent of the code)."""
    from tt_sketch.tensor import TensorTrain

    cores, r, m = [], 1, x.reshape(shape)
    for n in shape[:-1]:
        m = m.reshape(r * n, -1)
        u, s, v = np.linalg.svd(m, full_matrices=False)
        cores.append(u.reshape(r, n, -1))
        m, r = s[:, None] * v, len(s)
    cores.append(m.reshape(r, shape[-1], 1))
    return TensorTrain(cores)


def gmres_dense(A, b, x0, k):
    """Residual norms of GMRES after 0..k iterations."""
    r = b - A @ x0
    beta = np.linalg.norm(r)
    out = [beta]
    Q = [r / beta]
    H = np.zeros((k + 1, k))
    for j in range(k):
        w = A @ Q[-1]
        for _ in range(2):
            for i, q in enumerate(Q):
                h = q @ w
                H[i, j] += h
                w = w - h * q
        H[j + 1, j] = np.linalg.norm(w)
        e = np.zeros(j + 2)
        e[0] = beta
        y = np.linalg.lstsq(H[: j + 2, : j + 1], e, rcond=None)[0]
        out.append(np.linalg.norm(e - H[: j + 2, : j + 1] @ y))
        if H[j + 1, j] < 1e-13 * beta or out[-1] < 1e-14 * beta:
            break
        Q.append(w / H[j + 1, j])
    return out


def wrap(map_, plan):
    """A linear map of the user that delegates, may fail, stall or disturb the clock."""
    from tt_sketch.tt_gmres import TTLinearMap

    class UserMap(TTLinearMap):
        in_shape, out_shape = map_.in_shape, map_.out_shape

        def __call__(self, other):
            plan()
            return map_(other)

    return UserMap()


def trimmed(rank, shape):
    """Rank limits with those of the unfoldings (bounds of the property)."""
    d = len(shape)
    r = [rank] * (d - 1) if isinstance(rank, int) else list(rank)
    return [min(a, int(np.prod(shape[: i + 1])), int(np.prod(shape[i + 1:]))) for i, a in enumerate(r)]


def run(plan, ctx):
    p, F = plan["params"], plan["faults"]
    shape = tuple(p["shape"])
    d = len(shape)
    rs = np.random.RandomState(p["x0seed"])

    def call(sim, fail=None, disturb=False, maxiter=None):
        """-> (solution, history, inputs ok)"""
        from tt_sketch.tensor import TensorTrain
        from tt_sketch.tt_gmres import TTLinearMapSum, tt_sum_gmres

        maps, pre, b, A, Pinv, bx = system(p)
        xs = np.linalg.solve(A, bx)
        if p["x0"] == "none":
            x0 = None
        elif p["x0"] == "zero":
            x0 = TensorTrain([np.zeros((1, n, 1)) for n in shape])
        elif p["x0"] == "random":
            x0 = M.build({"kind": "tt", "shape": shape, "rank": [1] * (d - 1), "seed": p["x0seed"]})[0] * float(p["bscale"])
        elif p["x0"] == "exact":
            x0 = dense_tt(xs, shape)
        else:
            r = np.random.RandomState(p["x0seed"]).standard_normal(xs.shape)
            x0 = dense_tt(xs + 1e-2 * np.linalg.norm(xs) / np.linalg.norm(r) * r, shape)
        frs = np.random.RandomState(F["fseed"])
        count = {"map": 0, "precond": 0}

        def plan_call(where):
            count[where] += 1
            if not disturb:  # an operator that takes a second
                import time

                time.sleep(1.0)
            if disturb:
                me = sim.current
                if F["skew"]:
                    me.node.skew += frs.choice([0, 0, 7200.0, -86400.0, 1e9])
                    sim.fault("clock-skew")
                if F["stall"]:
                    import time

                    time.sleep(float(frs.choice([0, 1e-3, 3600.0])))
                    sim.fault("operator-stall")
            if fail and fail["where"] == where and count[where] == fail["at"]:
                sim.fault("operator-error")
                raise EXC[fail["exc"]](f"injected at {where} call {count[where]}")

        A_ = TTLinearMapSum([wrap(m, lambda: plan_call("map")) for m in maps])
        P_ = None
        if pre is not None:
            class Pre:
                in_shape = out_shape = shape

                def __call__(self, x):
                    plan_call("precond")
                    return pre(x)

            P_ = Pre()
        full = 1000 if p["maxrank"] == 1000 else tuple([1000] * (d - 1))
        mr = tuple(p["tight"]) if p["limit"] == "tight" else full
        fr = tuple(p["tight"]) if p["limit"] == "final" else None
        np.random.seed(12345)
        snap = [M.snapshot(o) for o in (maps, pre, b, x0)]
        err = res = None
        try:
            res = tt_sum_gmres(A_, b, max_rank=mr, precond=P_, final_round_rank=fr, x0=x0, tolerance=p["tol"],
                               maxiter=maxiter or p["maxiter"], symmetric=p["symmetric"], rounding_method=p["method"],
                               rounding_method_final=p["final"], save_basis=p["save"], verbose=p["verbose"])
        except tuple(EXC.values()) as e:
            err = e
        for o, s, n in zip((maps, pre, b, x0), snap, ("operator", "preconditioner", "right-hand side", "starting guess")):
            c = M.unchanged(o, s)
            ctx.check(c is None, "solver changed its input", f"{n}{c}")
        return res, err, (A, Pinv, bx, None if x0 is None else x0.to_numpy().reshape(-1)), count

    def alone(sim):
        r = call(sim)
        more = None
        if r[0] is not None and p["maxiter"] == 50 and p["limit"] != "tight":
            n = len(r[0][1]["residual_norm"]) - 1
            if n > 1:
                k = 1 + rs.randint(0, n)
                more = (k, call(sim, maxiter=k))
        return r, more

    base = Ctx({"sched": {"mode": "none"}, "entropy": 3})
    (ref, err, dense, count), more = base.run_sim(alone, cpu=p["cpu"], max_steps=20000000)
    steps = base.steps
    ctx.check(err is None, "solver raised an error of an operator that did not fail", repr(err))
    judge(ctx, p, ref, dense, p["maxiter"])
    timing(ctx, p, ref[1], count)
    if more:
        ctx.probe("truncated budget")
        k, (r2, e2, dn, _) = more
        judge(ctx, p, r2, dn, k)
        ctx.close(r2[1]["residual_norm"], ref[1]["residual_norm"][: k + 1], "history depends on the budget", f"{k}", scale=1.0, tol=1e-9)

    # the same with faults
    x_ref = ref[0].to_numpy()

    def root(sim):
        for f in F["fail"]:
            if count[f["where"]] < f["at"]:
                continue
            r, e, _, _ = call(sim, fail=f, disturb=True)
            ctx.probe("operator failed")
            ctx.check(e is not None, "operator error does not reach the caller", f"{f}")
            ctx.check(type(e) is EXC[f["exc"]], "operator error replaced", f"{f} {e!r}")
        r, e, _, c2 = call(sim, disturb=True)
        ctx.probe("disturbed")
        ctx.check(e is None, "solver raised an error of an operator that did not fail", repr(e))
        sc = float(np.max(np.abs(x_ref))) + 1e-300
        ctx.close(r[0].to_numpy(), x_ref, "clock or earlier failure changed the solution", f"{p['method']}", scale=sc, tol=1e-9)
        ctx.close(r[1]["residual_norm"], ref[1]["residual_norm"], "clock or earlier failure changed the history", "", scale=1.0, tol=1e-9)
        ctx.check(c2 == count, "clock or earlier failure changed the number of operator calls", f"{c2} {count}")

    def setup(s):
        for frac, j in F["jumps"]:
            s.clock_jumps[int(frac * steps) + 1] = j

    ctx.run_sim(root, setup=setup, cpu=p["cpu"], max_steps=20000000)
    ctx.nontrivial = bool(ctx.faults)


def timing(ctx, p, h, count):
    """The times recorded are those that passed, if every operator takes a second."""
    n = len(h["residual_norm"]) - 1
    one = count["map"] / (n + 1) + (count["precond"] - 1) / (n + 1) * (p["precond"] is not None)
    t = [float(v) for v in h["step_time"]]
    what = f"{t}, total {h['total_time']} for {count}, {n} iterations"
    ctx.check(len(t) == n + 1 and all(abs(v - one) < 0.5 + (i == 0) for i, v in enumerate(t)), "recorded step times are not the time that passed", what)
    ctx.check(sum(t) - 0.5 <= h["total_time"] <= (sum(count.values()) + 0.5) * 1.05, "recorded total time is not the time that passed", f"{sum(t)} {h['total_time']} {count}" + what)
    if n:
        w = [float(v) for v in h["step_time_with_res_norm"]]
        ctx.check(len(w) == n and all(-1e-9 <= b - a < 0.5 for a, b in zip(t[1:], w)), "recorded step times are not the time that passed", f"{w}; {what}")
        ctx.check(-1e-9 <= h["final_round_time"] < 0.5, "recorded rounding time is not the time that passed", f"{h['final_round_time']}; {what}")


def judge(ctx, p, result, dense, maxiter):
    x, h = result
    A, Pinv, b, x0 = dense
    shape = tuple(p["shape"])
    nb = np.linalg.norm(b)
    tol = p["tol"]
    res = [float(v) for v in h["residual_norm"]]
    n = len(res) - 1
    ctx.check(len(res) >= 1 and n <= maxiter, "more iterations than the budget", f"{n} > {maxiter}")
    xd = x.to_numpy()
    ctx.check(xd.shape == shape, "shape of the solution is wrong", f"{xd.shape}")
    full = trimmed(1000, shape)
    lim = trimmed(p["tight"], shape) if p["limit"] == "tight" else full
    flim = trimmed(p["tight"], shape) if p["limit"] == "final" else lim
    ctx.check(len(x.rank) == len(flim) and all(a <= b for a, b in zip(x.rank, flim)), "rank of the solution exceeds the limit", f"{x.rank} {flim}")
    for r in h["rank"]:
        ctx.check(all(a <= b for a, b in zip(r, lim)), "rank in the history exceeds the limit", f"{r} {lim}")
    ctx.check(len(h["rank"]) == len(res), "history has gaps", f"{len(h['rank'])} {len(res)}")
    ctx.check(np.isfinite(res).all(), "history is not finite", f"{res}")
    if n < maxiter:
        ctx.check(res[-1] <= max(tol * (1 + 1e-9), 1e-13 if tol < 1e-15 else 0), "stopped before the tolerance with budget left", f"{res[-1]:.3e} {tol}, {n} of {maxiter} iterations")
    for i in range(n):  # and not later than needed
        ctx.check(not (res[i] < tol * (1 - 1e-9)), "went on after the tolerance was reached", f"{res[i]:.3e} at {i} of {n}")
    if p["limit"] == "tight":
        ctx.check(np.isfinite(xd).all(), "solution is not finite", "")
        return
    A2, b2 = Pinv @ A, Pinv @ b
    g = gmres_dense(A2, b2, np.zeros_like(b) if x0 is None else x0, max(n, 1)) if not (x0 is not None and np.linalg.norm(b2 - A2 @ x0) < 1e-10 * nb) else [0.0]
    # roundings inside the solver are allowed errors of the order of the tolerance
    # (measured: at most 1.5 times the tolerance over thousands of systems)
    # or for the cookie problem, which takes more iterations, their sum
    allow = (max(10, 3 * n * np.linalg.cond(A2)) if p.get("cookie") else 10) * tol * max(1.0, res[0]) + 1e-10
    for i, v in enumerate(res):
        w = (g[i] if i < len(g) else 0.0) / nb
        ctx.check(abs(v - w) <= allow, "reported residuals are not those of GMRES", f"{v:.3e} for {w:.3e} at {i} of {n}; {p['method']}, tolerance {tol}")
        if i:
            ctx.check(v <= res[i - 1] * (1 + 1e-8) + (1e-14 if tol > 1e-15 else 1e-11), "reported residual grows", f"{res[i - 1]:.3e} -> {v:.3e} at {i}")
    if p["limit"] == "none":
        tr = np.linalg.norm(b2 - A2 @ xd.reshape(-1)) / nb
        ctx.check(abs(tr - res[-1]) <= allow, "reported residual is not the true one", f"{res[-1]:.3e} for {tr:.3e}; {p['method']}, tolerance {tol}")
        if res[-1] <= tol:
            ctx.probe("solved " + p["method"])
            ctx.probe("cookie problem", 1 if p.get("cookie") else 0)
    if p["save"] and n:
        ctx.check({"H_matrix", "nu_list", "y"} <= set(h), "basis is not saved", f"{sorted(h)}")
        H = np.array(h["H_matrix"])[: n + 1, :n]
        e = np.zeros(n + 1)
        e[0] = res[0] * nb
        ctx.close(float(np.linalg.norm(e - H @ np.array(h["y"]))), res[-1] * nb, "saved matrix and coefficients do not give the reported residual", p["method"], scale=res[0] * nb, tol=1e-8)
        y = np.zeros(b.shape) if x0 is None else x0.copy()
        for c, v in zip(h["y"], h["nu_list"]):
            y = y + c * v.to_numpy().reshape(-1)
        ctx.check(len(h["y"]) == len(h["nu_list"]) == n, "saved basis has another length", f"{len(h['y'])} {len(h['nu_list'])} {n}")
        if p["limit"] == "none":
            ctx.close(y, xd.reshape(-1), "solution is not the combination of the saved basis", p["method"], scale=float(np.max(np.abs(y))) + float(np.max(np.abs(xd))), tol=1e-7)


def simplify(plan):
    P = plan["params"]
    for k in ("jumps", "fail"):
        for i in range(len(plan["faults"][k])):
            q = copy.deepcopy(plan)
            del q["faults"][k][i]
            yield q
    for k, v in (("precond", None), ("x0", "none"), ("final", None), ("limit", "none"), ("symmetric", False), ("bscale", 1.0)):
        if P[k] != v:
            q = copy.deepcopy(plan)
            q["params"][k] = v
            yield q
    for i in range(len(P["maps"])):
        if len(P["maps"]) > 1 and P["maps"][i]["type"] != "eye":
            q = copy.deepcopy(plan)
            del q["params"]["maps"][i]
            yield q
