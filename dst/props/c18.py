"""Measurements: what an experiment reports about an approximation is true of the
approximation it asked for.

The experiment functions run on a simulated clock, with maps of the user that take
a second per call, error functions that take a second, and a caller that is stalled
at a seeded point while the calendar clock is set; with failing maps, error
functions and code lines, followed by a retry; alone or next to other experiments;
directly or through the experiment store.  Reference: the library called directly
with the maps the experiment drew, and dense arrays."""
import copy
import os

import numpy as np

from dst import fs as FS
from dst import model as M
from dst.harness import gen_sched
from dst.props import c12
from dst.props.c17 import feasible
from dst.sim import Injection, SimKill, Stall, injected

ID = "C18"
FUNCS = ("stream", "stream", "orth", "orth", "hmt", "svd", "round")


# At a line of the scripts only errors that no part of them turns into another value: what is not a number, say.
# (no kinds of ValueError: deciding whether a parameter is a number may catch one)
LINE = injected(runtime=RuntimeError, ki=KeyboardInterrupt, memory=MemoryError, arith=FloatingPointError, os=OSError, exit=SystemExit)
EXC = {**LINE, **injected(linalg=np.linalg.LinAlgError, value=ValueError, type=TypeError, key=KeyError, attribute=AttributeError, assertion=AssertionError)}


def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2, 3])
    threads = []
    for t in range(nt):
        while True:
            shape = M.gen_shape(rng, maxsize=160, dmax=4, special=0.05)
            if int(np.prod(shape)) > 1:
                break
        d = len(shape)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            f = rng.choice(FUNCS)
            cl, cr = rng.choice(M.DRMS), rng.choice(M.DRMS)
            if rng.random() < 0.5:
                cr = cl
            small = feasible(shape, M.gen_rank(rng, d, 1, 4))
            big = [r + rng.choice([1, 1, 2, 4]) for r in small]
            flat = rng.random() < 0.25
            if flat:
                small, big = rng.randint(1, 3), rng.randint(4, 6)
            if f in ("svd", "round"):
                kinds = ["tt"] if f == "round" else list(M.KINDS)
            elif f == "hmt":
                kinds = list(M.SUPPORT[cr])
            else:
                kinds = [k for k in M.KINDS if k in M.SUPPORT[cl] and k in M.SUPPORT[cr]]
            x = M.gen_tensor(rng, shape, rng.choice(kinds))
            if x.get("how") == "zeros":
                x.pop("how")
            if x["kind"] == "sparse":
                x["nnz"] = max(x["nnz"], 1)
            if f not in ("round",) and rng.random() < 0.2:
                x = {"kind": "sum", "shape": shape, "parts": [x] + [dict(M.gen_tensor(rng, shape, rng.choice(kinds)), how=None) for _ in range(rng.randint(0, 2))]}
                x["parts"][0].pop("how", None)
            op = {"f": f, "x": x, "small": small, "big": big, "swap": f == "stream" and rng.random() < 0.4,
                  "cl": cl, "cr": cr, "types": rng.choice(["both", "both", "both", "left", "right", "none"]) if nt == 1 else "both",
                  "recompress": rng.choice([None, None, 1, 2, 3]), "error": rng.choice([True, True, False]),
                  "extra": rng.sample(["run", "dim", "note"], rng.choice([0, 0, 1, 2])), "store": rng.random() < 0.4,
                  "rank_none": f in ("svd",) and rng.random() < 0.15, "rs": rng.getrandbits(31),
                  "wall": rng.choice([None, 3600.0, -86400.0, 1e8]),
                  "stall": rng.choice([None, rng.random(), rng.random()]), "fail": None}
            if op["types"] in ("left", "right", "none") and f != "hmt":
                c = {"left": cl, "right": cr, "none": "TT"}[op["types"]]
                ks = {x["kind"]} if x["kind"] != "sum" else {p["kind"] for p in x["parts"]}
                if not ks <= set(M.SUPPORT[c]):
                    op["types"] = "both"
            if rng.random() < 0.35:
                where = rng.choice(["map", "error", "line"])
                op["fail"] = {"where": where, "at": rng.choice([1, 1, 2, 3]), "frac": rng.random(), "exc": rng.choice(sorted(LINE if where == "line" else EXC))}
            ops.append(op)
        threads.append(ops)
    return {"params": {"cpu": rng.choice([1, 2, 8]), "bufsize": rng.choice([64, 8192])}, "threads": threads, "sched": gen_sched(rng)}


def types(op):
    """The families a request asks for, as (left, right); None: not given."""
    if op["f"] == "hmt":
        return None, (None if op["types"] == "none" else op["cr"])
    return (op["cl"] if op["types"] in ("both", "left") else None, op["cr"] if op["types"] in ("both", "right") else None)


class Hooks:
    """What the maps and error functions of one measurement do and see."""

    def __init__(self, sim):
        self.sim = sim
        self.maps = []
        self.calls = 0
        self.fail = None
        self.slow = False
        self.wall = None
        self.seen = []
        self.slept = 0

    def touch(self, where):
        import time

        self.calls += where == "map"
        f = self.fail
        if f and f["where"] == where and (where == "error" or self.calls == f["at"]):
            self.sim.fault("user-error-" + where)
            raise EXC[f["exc"]](f"injected in {where}")
        if self.slow:
            time.sleep(1.0)
            self.slept += 1
            if self.wall is not None:
                self.sim.current.node.wall += self.wall
                self.sim.fault("calendar-clock-set")


def user_class(name, hooks):
    """A family of maps of the user: one of the library's that takes its time."""
    base = M.drm_class(name)

    class UserMap(base):
        def __init__(self, *a, **k):
            hooks.touch("map")
            super().__init__(*a, **k)
            hooks.maps.append(self)

    for n in dir(base):
        if n.startswith("sketch_") and callable(getattr(base, n)):
            def wrapped(self, *a, _o=getattr(base, n), **k):
                hooks.touch("map")
                return _o(self, *a, **k)

            setattr(UserMap, n, wrapped)
    UserMap.__name__ = "User" + name
    return UserMap


def ranks(op):
    """(left, right) as the caller gives them"""
    a, b = op["small"], op["big"]
    if op["swap"]:
        a, b = b, a
    t = lambda r: r if isinstance(r, int) else tuple(r)
    return t(a), t(b)


def request(op, hooks):
    """Keyword arguments of the library function (without seed)."""
    l, r = ranks(op)
    tl, tr = types(op)
    make = lambda c: None if c is None else user_class(c, hooks)
    if op["f"] in ("stream", "orth"):
        return {"left_rank": l, "right_rank": r, "left_drm_type": make(tl), "right_drm_type": make(tr)}
    if op["f"] == "hmt":
        return {"rank": l, "drm_type": make(tr)}
    return {"rank": None if op["rank_none"] else l}


def direct(op, x, kw):
    """The approximation asked for, from the library itself."""
    from tt_sketch import sketch as S
    from tt_sketch.tt_svd import tt_svd

    f = op["f"]
    if f == "svd":
        return tt_svd(x, **kw)
    if f == "round":
        return x.round(max_rank=kw["rank"])
    y = {"stream": S.stream_sketch, "orth": S.orthogonal_sketch, "hmt": S.hmt_sketch}[f](x, **kw)
    if op["recompress"] is not None:
        y = (y.to_tt() if f == "stream" else y).round(max_rank=op["recompress"])
    return y


def with_maps(op, x, maps):
    """The same from the maps that were drawn."""
    from tt_sketch import sketch as S

    if op["f"] == "hmt":
        y = S.hmt_sketch(x, rank=tuple(maps[0].rank[::-1]), drm=maps[0])
    else:
        left, right = (maps[0], maps[1]) if not maps[0].transpose else (maps[1], maps[0])
        f = S.stream_sketch if op["f"] == "stream" else S.orthogonal_sketch
        y = f(x, tuple(left.rank), tuple(right.rank[::-1]), left_drm=left, right_drm=right)
    if op["recompress"] is not None:
        y = (y.to_tt() if op["f"] == "stream" else y).round(max_rank=op["recompress"])
    return y


def run(plan, ctx):
    P = plan["params"]
    alone = len(plan["threads"]) == 1

    def root(sim):
        from scripts import experiment_base as E

        funcs = {"stream": E.experiment_stream_sketch, "orth": E.experiment_orthogonal_sketch, "hmt": E.experiment_hmt_sketch,
                 "svd": E.experiment_tt_svd, "round": E.experiment_tt_round}
        seeds = []
        with FS.FS(sim, P["bufsize"]) as fs:
            tasks = [sim.spawn(caller, plan, ctx, sim, fs, funcs, E, ops, t, alone, seeds, name=f"caller{t}") for t, ops in enumerate(plan["threads"])]
            sim.join(*tasks)
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
        ctx.check(len(set(seeds)) == len(seeds), "two measurements used the same maps", f"{seeds}")

    ctx.run_sim(root, cpu=P["cpu"], max_steps=6000000)
    ctx.nontrivial = True


def caller(plan, ctx, sim, fs, funcs, E, ops, t, alone, seeds):
    path = os.path.join(fs.root, f"results{t}.csv")
    exp = E.Experiment(path)
    recorded = []
    for n, op in enumerate(ops):
        measure(ctx, sim, funcs[op["f"]], E, exp, path, recorded, op, n, alone, seeds)


def measure(ctx, sim, func, E, exp, path, recorded, op, n, alone, seeds):
    import time

    me = sim.current
    x, dense = M.build(op["x"])
    snap = M.snapshot(x)
    nd = float(np.linalg.norm(dense))
    if nd == 0:  # no relative error
        return
    what = f"{op['f']} of {op['x']['kind']} {tuple(op['x']['shape'])}, {op['small']} {op['big']}, {op['types']}, recompress {op['recompress']}"
    sketch = op["f"] in ("stream", "orth", "hmt")

    def go(error, store=None, fail=None, slow=False, stall=None, line=None, reseed=True):
        """One measurement -> (row or None, exception or None, hooks, times)"""
        hooks = Hooks(sim)
        hooks.fail, hooks.slow, hooks.wall = fail, slow, op["wall"]
        kw = request(op, hooks)
        if op["recompress"] is not None and sketch:
            kw["recompression_rank"] = op["recompress"]
        for e in op["extra"]:
            kw[e] = {"run": n, "dim": 0.5, "note": "a, b"}[e]
        count = Injection(10**12, EXC["runtime"], tasks=lambda q: q is me)

        def error_func(*a, **k):
            hooks.seen.append((a, k, time.perf_counter(), count.count))
            hooks.touch("error")
            return 0.125 + len(hooks.seen)

        if error:
            kw["error_func"] = error_func
        if alone and reseed:
            np.random.seed(op["rs"])
        inj = [count] + ([Stall(stall, 50.0, tasks=lambda q: q is me)] if stall else []) + ([Injection(line[0], EXC[line[1]], tasks=lambda q: q is me)] if line else [])
        got = []
        given = dict(kw)

        def tap(inp, **k):
            r = func(inp, **k)
            got.append(dict(r))
            return r

        out = err = None
        old = sim.injections
        sim.injections = list(old) + inj
        t0 = time.perf_counter()
        try:
            if store:
                tap.__name__ = func.__name__
                exp.do_experiment(x, store, tap, **kw)
                out = got[0] if got else None
            else:
                out = dict(func(x, **kw))
        except SimKill:
            raise
        except tuple(EXC.values()) as e:
            err = e
        t1 = time.perf_counter()
        total = count.count
        sim.injections = [i for i in sim.injections if i not in inj]
        ctx.check(list(kw) == list(given) and all(kw[k] is given[k] for k in kw), "arguments of the caller changed", what)
        d = M.unchanged(x, snap)
        ctx.check(d is None, "experiment changed its input", f"{d}; {what}")
        return out, err, hooks, {"t0": t0, "t1": t1, "total": total, "stall": inj[1] if stall else None, "line": inj[-1] if line else None, "kw": kw}

    def approximation(hooks):
        (args, kws, _, _), = hooks.seen
        ctx.check(len(args) == 2 and not kws and args[1] is x, "error function called with other arguments", f"{len(args)} {sorted(kws)}; {what}")
        return args[0]

    def expected(hooks):
        """What should have been approximated, with the maps of the measurement."""
        if sketch and len(hooks.maps):
            k = 1 if op["f"] == "hmt" else 2
            ctx.check(len(hooks.maps) == k, "another number of maps", f"{len(hooks.maps)}; {what}")
            slow, hooks.slow = hooks.slow, False
            fail, hooks.fail = hooks.fail, None
            try:
                check_maps(ctx, op, hooks.maps, x.shape, what)
                if k == 2 and types(op).count(None):  # only one side is of the user's family
                    return None
                return with_maps(op, x, hooks.maps)
            finally:
                hooks.slow, hooks.fail = slow, fail
        return None

    def judge(out, hooks, error, t):
        ctx.check({"error", "time_taken"} <= set(out), "result is incomplete", f"{sorted(out)}; {what}")
        want = ref
        if not alone:
            want = expected(hooks) if sketch else ref
        else:
            expected(hooks)
        wd = want.to_numpy()
        if error:
            ctx.check(len(hooks.seen) == 1, "error evaluated another number of times", f"{len(hooks.seen)}; {what}")
            y = approximation(hooks)
            ctx.close(y.to_numpy(), wd, "another approximation than the one asked for", what, scale=float(np.max(np.abs(wd))) + float(np.max(np.abs(dense))), tol=1e-8)
            ctx.check(tuple(int(v) for v in rank_of(y)) == tuple(int(v) for v in rank_of(want)), "approximation of another rank", f"{rank_of(y)} {rank_of(want)}; {what}")
            ctx.check(out["error"] == 1.125, "error is not that of the error function", f"{out['error']}; {what}")
        else:
            e = float(out["error"])
            w = float(np.linalg.norm(wd - dense)) / nd
            ctx.check(abs(e - w) <= 2e-7 + 1e-6 * w, "error is not that of the approximation", f"{e:.6e} for {w:.6e}; {what}")
        # the time is that of the approximation
        tt = float(out["time_taken"])
        t1 = hooks.seen[0][2] if error else t["t1"]
        ctx.check(0 <= tt <= t1 - t["t0"] + 1e-3, "time is longer than it took", f"{tt} of {t1 - t['t0']}; {what}")

    # what the library gives
    def reference():
        h = Hooks(sim)
        if alone:
            np.random.seed(op["rs"])
        return direct(op, x, request(op, h))

    ref = reference()
    # plain measurements
    for error in ((True, False) if alone else (op["error"],)):
        out, err, hooks, t = go(error)
        ctx.check(err is None and out is not None, "experiment fails", repr(err))
        judge(out, hooks, error, t)
        seeds += [(int(m.seed), op["rs"] if alone else 0, error) for m in hooks.maps[:1]]
        ctx.probe("measured " + op["f"])
        if error:
            before, total = hooks.seen[0][3], t["total"]
            ncalls = hooks.calls
    if not alone:
        before = total = ncalls = None
    # slow maps and error functions
    out, err, hooks, t = go(op["error"], slow=True)
    ctx.check(err is None, "experiment fails", repr(err))
    if alone or not sketch:
        judge(out, hooks, op["error"], t)
    tt = float(out["time_taken"])
    nmap = hooks.slept - (1 if op["error"] else 0)
    if sketch and hooks.calls:
        ctx.probe("slow maps")
        ctx.check(tt >= nmap - 1e-6, "time does not contain the sketching", f"{tt} for {nmap} s; {what}")
        if alone:
            ctx.check(tt <= nmap + 0.5, "time contains more than the approximation", f"{tt} for {nmap} s; {what}")
    elif alone:
        ctx.check(tt <= 0.5, "time contains more than the approximation", f"{tt}; {what}")
    # a stall
    if alone and op["stall"] is not None:
        if op["error"]:
            k = 1 + int(op["stall"] * total)
            out, err, hooks, t = go(True, stall=k)
        else:
            out, err, hooks, t0 = go(False)
            k = 1 + int(op["stall"] * t0["total"])
            out, err, hooks, t = go(False, stall=k)
        ctx.check(err is None, "experiment fails", repr(err))
        judge(out, hooks, op["error"], t)
        s = t["stall"]
        if s.fired is not None and not s.file.endswith("scripts/experiment_base.py"):
            tt = float(out["time_taken"])
            ctx.probe("stalled")
            if k < before - 6:
                ctx.check(50.0 <= tt <= 50.5, "time does not contain the approximation", f"{tt} with 50 s at {s.fired}; {what}")
            elif k > before + 6:
                ctx.check(tt <= 0.5, "time contains more than the approximation", f"{tt} with 50 s at {s.fired}; {what}")
    # failures
    f = op["fail"]
    if f is not None:
        fail = dict(f)
        error = op["error"] or f["where"] == "error"
        store = f"fails {n}" if op["store"] else None
        line = None
        if f["where"] == "line":
            base = total if alone else 400
            line = (1 + int(f["frac"] * base), f["exc"])
        out, err, hooks, t = go(error, store=store, fail=fail, line=line)
        fired = t["line"].fired is not None if line else err is not None
        should = line is not None and fired or f["where"] == "error" or f["where"] == "map" and hooks.calls >= f["at"]
        if should:
            ctx.probe("failed in " + f["where"])
            ctx.check(err is not None, "error of a part of the experiment does not reach the caller", f"{f}; {what}")
            ctx.check(type(err) is EXC[f["exc"]], "error of a part of the experiment replaced", f"{err!r}; {what}")
            if store:
                disk(ctx, path, recorded, what, "after a failure", optional=None if not line else {"name": store})
        else:
            ctx.check(err is None, "experiment fails", repr(err))
            if store:
                recorded.append(({"name": store}, out))
        out, err, hooks, t = go(error)
        ctx.check(err is None, "experiment fails after an earlier failure", repr(err))
        judge(out, hooks, error, t)
    # through the store
    if op["store"]:
        out, err, hooks, t = go(op["error"], store=f"op {n}")
        ctx.check(err is None and out is not None, "experiment fails in the store", repr(err))
        judge(out, hooks, op["error"], t)
        kw = {k: (v if isinstance(v, (int, float, str)) and not isinstance(v, bool) else getattr(v, "__name__", str(v))) for k, v in t["kw"].items()}
        recorded.append((dict(kw, name=f"op {n}"), out))
        disk(ctx, path, recorded, what, "")
        out, err, hooks, t = go(op["error"], store=f"op {n}")
        ctx.check(err is None and out is None and not hooks.seen and not hooks.maps, "recorded experiment was run again", what)
        ctx.probe("stored")
    ctx.event(n, op["f"])


def disk(ctx, path, recorded, what, when, optional=None):
    """The rows of the file are those recorded."""
    if not os.path.exists(path):
        ctx.check(not recorded, "recorded experiments lost", what)
        return
    _, cells = c12.read_rows(path)
    if optional and len(cells) == len(recorded) + 1 and cells[-1].get("name") == optional["name"]:
        recorded.append((optional, None))  # failed after it was recorded
    ctx.check(len(cells) == len(recorded), "file holds other experiments " + when, f"{len(cells)} for {len(recorded)}; {what}")
    for c, (kw, out) in zip(cells, recorded):
        if out is None:
            continue
        for k, v in list(kw.items()) + [("error", out["error"]), ("time_taken", out["time_taken"])]:
            v = v.item() if isinstance(v, np.generic) else v
            ctx.check(c12.same(c.get(k, ""), v), "row is not what was measured", f"{k}: {c.get(k)!r} for {v!r}; {what}")


def trimmed(shape, rank):
    """The smallest lossless ranks."""
    out, a = [], 1
    for n, r in zip(shape, rank):
        a = min(r, a * n)
        out.append(a)
    a = 1
    for i in range(len(out) - 1, -1, -1):
        a = out[i] = min(out[i], a * shape[i + 1])
    return out


def rank_of(y):
    return y.rank if hasattr(y, "rank") else ()


def check_maps(ctx, op, maps, shape, what):
    """The maps are of the families, sides and ranks that were asked for."""
    l, r = ranks(op)
    full = lambda v: [v] * (len(shape) - 1) if isinstance(v, int) else list(v)
    want = {False: full(l), True: full(l if op["f"] == "hmt" else r)}
    if op["f"] == "hmt":
        sides = [True]
        want[True] = trimmed(shape, want[True])
    else:
        sides = [False, True]
        small = op["swap"]
        want[small] = trimmed(shape, want[small])
    tl, tr = types(op)
    for m in maps:
        side = bool(m.transpose)
        ctx.check(side in sides, "maps on the wrong side", f"{what}")
        sides.remove(side)
        own = tr if side else tl
        own = own or (tl if side else tr)
        ctx.check(own is None or type(m).__name__ == "User" + own, "map of another family", f"{type(m).__name__} for {own}; {what}")
        rk = list(m.rank[::-1] if side else m.rank)
        ctx.check(rk == want[side], "map of another rank", f"{rk} for {want[side]}; {what}")


def simplify(plan):
    for t in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            q = copy.deepcopy(plan)
            del q["threads"][t]
            yield q
        for n, op in enumerate(plan["threads"][t]):
            for k, v in (("fail", None), ("stall", None), ("wall", None), ("store", False), ("extra", []), ("recompress", None), ("types", "both"), ("swap", False)):
                if op[k] != v:
                    q = copy.deepcopy(plan)
                    q["threads"][t][n][k] = v
                    yield q
