"""Entries of lazily evaluated maps computed in pieces by crashing workers, in
any order, chunking, integer type and rank window, in index spaces up to 2^62."""
import numpy as np

from dst import model as M
from dst.harness import gen_sched
from dst.net import Net, gen_faults
from dst.sim import Injection, ProcessCrash

ID = "C16"
LIMIT = 2 ** 62


def gen_big_shape(rng):
    d = rng.choice([2, 2, 3, 3, 4, 5, 7])
    mode = rng.choice(["small", "mid", "huge", "huge", "exact"])
    if mode == "small":
        return [rng.randint(1, 6) for _ in range(d)]
    if mode == "exact":  # exactly 2^62 positions
        left, out = 62, []
        for i in range(d - 1):
            b = rng.randint(0, min(left, 40))
            out.append(2 ** b)
            left -= b
        return out + [2 ** left]
    bits = rng.randint(20, 40) if mode == "mid" else rng.randint(45, 61)
    w = [rng.random() + 0.05 for _ in range(d)]
    out = [max(1, int(2 ** (bits * x / sum(w)))) + rng.randint(0, 1) for x in w]
    while int(np.prod([int(x) for x in out], dtype=object)) > LIMIT:
        out[out.index(max(out))] //= 2
    return out


def gen(rng, tier):
    cls = rng.choice(["SG", "SG", "SS"])
    shape = gen_big_shape(rng)
    d = len(shape)
    rank = M.gen_rank(rng, d, 1, 7)
    many = rng.choice(["rank", "positions"]) if rng.random() < 0.05 else None
    if many == "rank":
        rank = [rng.choice([r, rng.randint(200, 700)]) for r in rank]
    drm = M.gen_drm(rng, cls, shape, rank, rng.random() < 0.5)
    jobs = []
    for _ in range(rng.randint(1, 6)):
        jobs.append({"n": rng.choice([0, 1, 2, rng.randint(1, 40), 400, 10000]), "pick": rng.getrandbits(31), "order": rng.choice(["random", "sorted", "reversed", "dup", "all", "block"]),
                     "itype": rng.choice(["int64", "uint64", "int32", "uint32", "int16", "uint8", "tuple"]),
                     "lay": rng.choice(["C", "F", "strided"]),
                     "win": None if rng.random() < 0.5 else [rng.random(), rng.random()],
                     "grow": rng.random() < 0.3, "ship": rng.random() < 0.3})
    nw = rng.randint(1, 3)
    faults = gen_faults(rng, [f"w{i}" for i in range(nw)], n=(0, 0, 1, 2, 3), msgs=12)
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({"kind": "crash", "task": rng.randrange(nw), "k": rng.choice([rng.randint(1, 30), rng.randint(1, 200)])})
    return {"params": {"drm": drm, "n": 6 if many == "rank" else rng.choice([3000, 9000]) if many else rng.choice([1, 3, 20, 60, 150, 150, 400]), "pos": rng.getrandbits(31), "near": rng.random(),
                       "seed2": rng.choice([1, 2, 3, 17, 2 ** 16, 2 ** 31]), "workers": nw, "cpu": [rng.choice([1, 2, 8, 64]) for _ in range(3)]},
            "ops": jobs, "faults": faults, "sched": gen_sched(rng)}


def positions(shape, n, seed, near):
    """Scattered positions, neighbours of one another, corners, and positions
    that differ by a power of two or in one mode only."""
    r = np.random.RandomState(seed)
    shape = [int(s) for s in shape]
    d = len(shape)
    cols = []

    def rand():
        return [int(r.randint(0, 2 ** 31)) * (2 ** 31) % s + int(r.randint(0, 2 ** 31)) % s for s in shape]

    for _ in range(n):
        if cols and r.rand() < near:
            p = list(cols[r.randint(len(cols))])
            m = r.randint(d)
            k = r.randint(4)
            if k == 0:
                p[m] += 1
            elif k == 1:
                p[m] += 2 ** int(r.randint(0, 62))
            elif k == 2:
                p[m] = 0
            else:
                m2 = r.randint(d)  # same sum of coordinates
                p[m] += 1
                p[m2] -= 1
        else:
            p = rand() if r.rand() < 0.9 else [0 if r.rand() < 0.5 else s - 1 for s in shape]
        cols.append([x % s for x, s in zip(p, shape)])
    return np.array(cols, dtype=np.int64).reshape(-1, d).T


def tensor(shape, pos, itype, lay):
    from tt_sketch.tensor import SparseTensor

    if itype == "tuple":
        idx = tuple(np.array(x) for x in pos)
    else:
        top = int(pos.max(initial=0))
        if top > np.iinfo(itype).max:
            itype = "int64"
        idx = pos.astype(itype)
        if lay == "F":
            idx = np.asfortranarray(idx)
        elif lay == "strided" and idx.shape[1]:
            big = np.zeros((2 * idx.shape[0], 3 * idx.shape[1]), dtype=idx.dtype)
            big[::2, ::3] = idx
            idx = big[::2, ::3]
    return SparseTensor(tuple(shape), idx, np.ones(pos.shape[1]))


def entries(drm, shape, pos, itype="int64", lay="C"):
    out = [np.array(m, dtype=float) for m in drm.sketch_sparse(tensor(shape, pos, itype, lay))]
    return out


def run(plan, ctx):
    P = plan["params"]
    spec = P["drm"]
    shape = tuple(int(x) for x in spec["shape"])
    d = len(shape)
    left = not spec["transpose"]
    rank = spec["rank"]
    what = f"{spec['cls']} {'left' if left else 'right'} shape {shape} rank {rank} seed {spec['seed']} nnz {spec.get('nnz')}"
    pos = positions(shape, P["n"], P["pos"], P["near"])
    N = pos.shape[1]

    def select(job):
        r = np.random.RandomState(job["pick"])
        n = job["n"]
        if job["order"] == "all":
            sel = np.arange(N)
        elif job["order"] == "block":
            a = r.randint(N)
            sel = np.arange(a, min(N, a + n))
        elif job["order"] == "dup":
            sel = r.randint(0, N, size=n)
        else:
            sel = r.permutation(N)[:n]
            if job["order"] == "sorted":
                sel = np.sort(sel)
            elif job["order"] == "reversed":
                sel = np.sort(sel)[::-1]
        return sel

    def window(job):
        if not job["win"]:
            return None
        lo = tuple(int(job["win"][0] * r) for r in rank)
        hi = tuple(a + 1 + int(job["win"][1] * (r - a - 1)) for a, r in zip(lo, rank))
        return lo, hi

    def compute(drm, job):
        w = window(job)
        if w:
            drm = drm.slice(*w)
        elif job["grow"] and spec["cls"] == "SG":
            drm = drm.increase_rank(tuple(r + 2 for r in rank))
        return entries(drm, shape, pos[:, select(job)], job["itype"], job["lay"])

    def root(sim):
        drm = M.build_drm(spec)
        E = entries(drm, shape, pos)
        ctx.check(len(E) == d - 1, "malformed map", f"{len(E)} unfoldings; {what}")
        for mu in range(d - 1):
            ctx.check(E[mu].shape == (rank[mu], N), "malformed map", f"mode {mu}: {E[mu].shape}; {what}")

        net = Net(sim, plan["faults"])

        def worker(k):
            me, inc = f"w{k}", 0
            while True:
                try:
                    mine = M.build_drm(spec)
                    while True:
                        m = net.recv(me, 1000.0)
                        if m is None or m[1][0] == "stop":
                            return
                        _, (_, i, shipped) = m
                        res = compute(shipped if shipped is not None else mine, plan["ops"][i])
                        net.send(me, "co", (i, res))
                except ProcessCrash:
                    inc += 1
                    ctx.probe("worker restarted")
                    net.clear(me)
                    sim.move(sim.new_node(f"{me}.{inc}", cpu=P["cpu"][k], salt=77 * k + inc))

        tasks = [sim.spawn(worker, k, name=f"w{k}", node=sim.new_node(f"w{k}", cpu=P["cpu"][k])) for k in range(P["workers"])]
        for f in plan["faults"]:
            if f["kind"] == "crash" and f["task"] < len(tasks):
                t = tasks[f["task"]]
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda x, t=t: x is t, name="crash"))
        got, rounds = {}, 0
        while len(got) < len(plan["ops"]):
            rounds += 1
            ctx.check(rounds < 60, "no progress", what)
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
            for i, job in enumerate(plan["ops"]):
                if i not in got:
                    net.send("co", f"w{(i + rounds) % P['workers']}", ("do", i, drm if job["ship"] else None))
            end = sim.now + 0.3 * rounds
            while sim.now < end and len(got) < len(plan["ops"]):
                m = net.recv("co", max(end - sim.now, 1e-6))
                if m is None:
                    break
                i, res = m[1]
                if i in got:
                    for a, b in zip(res, got[i]):
                        ctx.equal(a, b, "entries differ between two computations", what)
                got[i] = res
        net.parts, net.fates = [], {}
        for k in range(P["workers"]):
            net.send("co", f"w{k}", ("stop", None, None))
        sim.injections = []
        for t in tasks:
            sim.join(t)
            if t.exc is not None:
                raise t.exc

        for i, job in enumerate(plan["ops"]):
            sel, w = select(job), window(job)
            for mu in range(d - 1):
                want = E[mu][:, sel]
                have = got[i][mu]
                if w:
                    want = want[w[0][mu]:w[1][mu]]
                elif job["grow"] and spec["cls"] == "SG":
                    ctx.check(have.shape[0] == rank[mu] + 2, "malformed map", what)
                    have = have[: rank[mu]]
                ctx.equal(have, want, "entry depends on how it was computed", f"mode {mu} job {job}; {what}")
            ctx.probe("window" if w else "chunk")

        # position alone
        seed2 = (spec["seed"] + P["seed2"]) % (2 ** 32 - 1)
        E2 = entries(M.build_drm(dict(spec, seed=seed2)), shape, pos)
        for mu in range(d - 1):
            part = pos[: mu + 1] if left else pos[mu + 1:]
            groups = {}
            for j in range(N):
                groups.setdefault(tuple(part[:, j].tolist()), []).append(j)
            first = [g[0] for g in groups.values()]
            for g in groups.values():
                for j in g[1:]:
                    ctx.equal(E[mu][:, j], E[mu][:, g[0]], "same position of the unfolding, different entries", f"mode {mu}; {what}")
            Q = E[mu][:, first]
            if spec["cls"] == "SG":
                ctx.check(bool(np.all(np.isfinite(Q))), "entry is not a finite number", f"mode {mu}; {what}")
                u, c = np.unique(Q, return_counts=True)
                if u.size != Q.size:
                    v = u[c.argmax()]
                    w_ = np.argwhere(Q == v)[:2]
                    det = [(int(a), part[:, first[int(b)]].tolist()) for a, b in w_]
                    ctx.check(False, "different positions share a Gaussian entry", f"mode {mu}: {u.size} distinct of {Q.size}, e.g. (rank index, position) {det}; {what}")
                ctx.check(not np.any(E[mu] == E2[mu]), "different seeds share a Gaussian entry", f"mode {mu} seeds {spec['seed']} {seed2}; {what}")
                for nu in range(mu):
                    r = min(rank[mu], rank[nu])
                    ctx.check(not np.any(E[mu][:r] == E[nu][:r]), "different modes share a Gaussian entry", f"modes {mu} {nu}; {what}")
            else:
                nnz = spec["nnz"][mu] if spec.get("nnz") else rank[mu]
                ctx.check(bool(np.all(np.isin(Q, (-1.0, 0.0, 1.0)))), "sign map entry is not of size one", f"mode {mu}; {what}")
                cnt = np.abs(Q).sum(axis=0)
                ctx.check(bool(np.all(cnt == nnz)), "wrong number of nonzeros", f"mode {mu}: {sorted(set(cnt.tolist()))} wanted {nnz}; {what}")
                n, r = Q.shape[1], rank[mu]
                hit = np.abs(Q).sum(axis=1)
                if nnz < r and n * np.log(1 - nnz / r) < np.log(1e-13 / r):
                    ctx.check(bool(np.all(hit > 0)), "nonzeros are not spread over all rank indices", f"mode {mu}: hits {hit.tolist()}; {what}")
                    ctx.probe("spread")
                if nnz == r and n >= 50 or n * nnz / r > 120:
                    ctx.check(bool(np.all((Q > 0).sum(axis=1) > 0) and np.all((Q < 0).sum(axis=1) > 0)), "signs do not vary", f"mode {mu}; {what}")
                    ctx.probe("signs")
                if n * nnz >= 60:
                    ctx.check(not np.array_equal(E[mu], E2[mu]), "different seeds give the same sign map", f"mode {mu} seeds {spec['seed']} {seed2}; {what}")
                    for nu in range(mu):
                        if rank[nu] == r and (not spec.get("nnz") or spec["nnz"][nu] == nnz) and len(set(map(tuple, pos.T.tolist()))) >= 60:
                            ctx.check(not np.array_equal(E[mu], E[nu]), "different modes give the same sign map", f"modes {mu} {nu}; {what}")
        if spec["cls"] == "SS":
            signs(ctx, spec, shape, left, pos, P["pos"], what)
        size = 1
        for s in shape:
            size *= s
        ctx.probe("2^62" if size == LIMIT else ">2^53" if size > 2 ** 53 else ">2^31" if size > 2 ** 31 else "small")

    ctx.run_sim(root, cpu=P["cpu"][0])
    ctx.nontrivial = bool(ctx.faults) or ctx.switches > 0 or len(plan["ops"]) > 1


def signs(ctx, spec, shape, left, pos, seed, what):
    """Patterns of a sign map depend on every index of the position and on the mode."""
    d, rank = len(shape), spec["rank"]
    drm = M.build_drm(spec)
    r = np.random.RandomState(seed ^ 5)
    base = pos[:, :80]
    E = entries(drm, shape, base)
    nnz = spec["nnz"] if spec.get("nnz") else rank
    for k in range(d):
        if shape[k] < 2:
            continue
        step = 2 ** int(r.randint(0, min(61, shape[k].bit_length()))) if r.rand() < 0.6 else 1
        step = step % shape[k] or 1
        other = base.copy()
        other[k] = [(int(x) + step) % shape[k] for x in base[k]]
        F = entries(drm, shape, other)
        for mu in range(d - 1):
            lo, hi = (0, mu + 1) if left else (mu + 1, d)
            if not lo <= k < hi:
                continue
            pairs = {frozenset((tuple(base[lo:hi, j].tolist()), tuple(other[lo:hi, j].tolist()))) for j in range(base.shape[1])}
            seen = [p for q in pairs for p in q]
            if len(pairs) >= 40 and len(set(seen)) >= 50:
                ctx.check(not np.array_equal(E[mu], F[mu]), "sign map does not depend on an index of the position",
                          f"mode {mu} index {k} changed by {step}; {what}")
                ctx.probe("sign map index")
    # positions that only vary in the first (last) index, one flat number in all modes
    k = 0 if left else d - 1
    if shape[k] >= 50:
        z = np.zeros((d, 60), dtype=np.int64)
        z[k] = r.choice(min(shape[k], 10 ** 6), size=60, replace=shape[k] < 60)
        E = entries(drm, shape, z)
        for mu in range(d - 1):
            for nu in range(mu):
                if rank[mu] == rank[nu] and nnz[mu] == nnz[nu] and len(set(z[k].tolist())) >= 40:
                    ctx.check(not np.array_equal(E[mu], E[nu]), "different modes give the same sign map", f"modes {mu} {nu}, first index; {what}")
                    ctx.probe("sign map modes")
