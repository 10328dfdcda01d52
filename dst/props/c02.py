"""Global randomness: seeded calls leave it alone, unseeded calls are fresh."""
import hashlib
import time

import numpy as np

from dst import model as M, seeded as S
from dst.harness import Ctx, gen_sched
from dst.sim import Injection, SimKill
from dst.props.c05 import EXC, INJ

ID = "C02"
UNSEEDED = S.TENSORS[:5] + ("dense", "mpo") + ("drm",) * 4 + S.SKETCH


def gen(rng, tier):
    steps = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.3:
            steps.append({"op": "draw", "n": rng.randint(1, 3), "how": rng.choice(["uniform", "normal", "randint", "choice"])})
        elif r < 0.75:
            st = {"op": "seeded", "item": S.gen_item(rng), "seed": rng.getrandbits(31),
                  "fail": rng.choice([None, None, None, "args", "inject"]), "k": rng.choice([rng.randint(1, 60), rng.randint(1, 800)]),
                  "exc": rng.choice(sorted(EXC))}
            steps.append(st)
        else:
            steps.append({"op": "unseeded", "item": gen_unseeded(rng)})
    return {"params": {"mode": rng.choice(["single", "threads", "fresh", "fixed"]), "cpu": rng.choice([1, 2, 8, 16]),
                       "fix": rng.getrandbits(32), "gap": rng.choice([10, 60, 300, 1000]), "fix2": rng.getrandbits(32),
                       "repeat": rng.randint(2, 3), "nodes": rng.randint(1, 3), "tasks": rng.randint(1, 2)},
            "ops": steps, "faults": [], "sched": gen_sched(rng)}


def gen_unseeded(rng):
    w = rng.choice(UNSEEDED)
    if w in ("dense", "mpo"):
        return {"what": w, "shape": [rng.randint(2, 4) for _ in range(3)]}
    it = S.gen_item(rng, (w,))
    if w in S.SKETCH:
        it["maps"] = True  # the result must show the maps
    return it


def make(it, seed=None):
    from tt_sketch import tensor as t
    from tt_sketch.tt_gmres import MPO

    if it["what"] == "dense":
        return [t.DenseTensor.random(tuple(it["shape"])).data]
    if it["what"] == "mpo":
        return list(MPO.random(2, tuple(it["shape"]), tuple(it["shape"])).cores)
    return S.make(it, seed)


def bad_args(it, seed):
    """A seeded call that fails because of its arguments."""
    from tt_sketch import sketch as k
    from tt_sketch import tensor as t

    w, shape = it["what"], tuple(it["shape"])
    if w in S.SKETCH:
        k.orthogonal_sketch(S.input_tensor(it), 3, 2, seed=seed)
    elif w == "sparse":
        t.SparseTensor.random(shape, int(np.prod(shape)) + 1, seed=seed)
    elif w == "tt":
        t.TensorTrain.random(shape, _r(it), seed=seed, norm_goal="no such goal")
    elif w == "drm":
        M.drm_class(it["cls"])(tuple(it["rank"]) + (1, 2, 3), shape, it["transpose"], seed=seed)
        raise ValueError("accepted")  # not judged here
    else:
        t.TensorTrain.random(shape, 2, seed=seed, orthog=True, trim=False)


def _r(it):
    return tuple(it["rank"]) if isinstance(it["rank"], list) else it["rank"]


def draw(st):
    h = st["how"]
    if h == "uniform":
        return np.random.uniform(size=st["n"]).tolist()
    if h == "normal":
        return np.random.normal(size=st["n"]).tolist()
    if h == "randint":
        return np.random.randint(0, 10**6, size=st["n"]).tolist()
    return np.random.choice(1000, size=st["n"]).tolist()


def state():
    s = np.random.get_state()
    return (s[0], hashlib.sha256(s[1].tobytes()).hexdigest(), s[2], s[3], s[4])


def continues(before, most):
    """Is the process-wide generator where drawing from `before` leads to?"""
    now = np.random.get_state()
    bg = np.random.MT19937()
    bg.state = {"bit_generator": "MT19937", "state": {"key": before[1], "pos": before[2]}}
    pos = before[2]
    for _ in range(most // 624 + 2):
        st = bg.state["state"]
        if np.array_equal(st["key"], now[1]):
            return now[2] >= pos
        bg.random_raw(624 - st["pos"] + 1)
        pos = 1
    return False


def digest(arrs):
    h = hashlib.sha256()
    for a in arrs:
        h.update(np.ascontiguousarray(np.asarray(a, dtype=float) + 0.0).tobytes())
    return h.hexdigest()


def seeded_step(ctx, sim, st, single):
    it = st["item"]
    before = state() if single else None
    name = None
    if st["fail"] == "inject":
        me = sim.current
        sim.injections.append(Injection(st["k"], EXC[st["exc"]], tasks=(lambda t: t is me) if single else (lambda t: t is me)))
    try:
        if st["fail"] == "args":
            bad_args(it, st["seed"])
        else:
            S.make(it, st["seed"])
    except SimKill:
        raise
    except INJ as e:
        name = type(e).__name__
    except Exception as e:
        if st["fail"] is None:
            raise
        name = type(e).__name__
    sim.injections = []
    if single:
        ctx.check(state() == before, "seeded call changed the process-wide generator",
                  f"{it['what']} {it.get('cls', '')} failing {st['fail']} {name}")
    ctx.probe("seeded failed" if name else "seeded ok")


def run(plan, ctx):
    P = plan["params"]
    ops = plan["ops"]
    mode = P["mode"]
    ctx.probe("mode " + mode)
    if mode == "single":
        def f(with_seeded):
            def root(sim):
                out = []
                for st in ops:
                    if st["op"] == "draw":
                        out.append(draw(st))
                    elif st["op"] == "seeded":
                        if with_seeded:
                            seeded_step(ctx, sim, st, True)
                    else:
                        before = np.random.get_state()
                        arrs = make(st["item"])
                        ctx.check(continues(before, 64 * sum(a.size for a in arrs) + 64 * S.volume(st["item"]) + 10**4),
                                  "unseeded call restarted the process-wide generator", f"{st['item']['what']} {st['item'].get('cls', '')}")
                return out + [np.random.uniform()]
            return root
        a = ctx.run_sim(f(True), cpu=P["cpu"], entropy="e")
        b = Ctx({"sched": {"mode": "none"}}).run_sim(f(False), cpu=P["cpu"], entropy="e")
        ctx.check(a == b, "seeded calls changed the numbers drawn by the caller", f"{[s['op'] for s in ops]}")
    elif mode == "threads":
        draws = [s for s in ops if s["op"] == "draw"] or [{"op": "draw", "n": 2, "how": "uniform"}]
        draws = draws * 3
        seeded = [s for s in ops if s["op"] == "seeded"]

        def f(with_seeded):
            def root(sim):
                def drawer():
                    out = []
                    for st in draws:
                        time.sleep(P["gap"] * 1e-6)
                        out.append(draw(st))
                    return out

                def worker(k):
                    for st in seeded[k::P["tasks"]]:
                        seeded_step(ctx, sim, st, False)

                ts = []
                if with_seeded:
                    ts = [sim.spawn(worker, k, name=f"seeded{k}") for k in range(P["tasks"])]
                d = sim.spawn(drawer, name="drawer")
                # draws must fall into the middle of the seeded calls
                sim.join(d, *ts)
                for t in ts + [d]:
                    if t.exc is not None:
                        raise t.exc
                return d.result
            return root
        sched = plan["sched"]
        a = ctx.run_sim(f(True), cpu=P["cpu"], entropy="e", max_steps=6000000)
        b = Ctx({"sched": {"mode": "none"}}).run_sim(f(False), cpu=P["cpu"], entropy="e")
        ctx.check(a == b, "seeded calls changed the numbers drawn by another thread", "")
    elif mode == "fresh":
        items = [s["item"] for s in ops if s["op"] == "unseeded"] or [{"what": "drm", "cls": "TT", "shape": [4, 4, 4], "rank": [2, 3], "transpose": False}]
        items = [it for it in items if it["what"] not in S.TENSORS + ("drm",) or S.volume(it) >= 24] or [{"what": "normal", "shape": [9]}]

        def root(sim):
            def worker(k):
                out = []
                for _ in range(P["repeat"]):
                    for i, it in enumerate(items):
                        out.append((i, digest(make(it))))
                return out
            ts = []
            for n in range(P["nodes"]):
                node = sim.nodes[0] if n == 0 else sim.new_node(f"p{n}", cpu=P["cpu"])
                for k in range(P["tasks"]):
                    ts.append(sim.spawn(worker, k, name=f"p{n}t{k}", node=node))
            sim.join(*ts)
            for t in ts:
                if t.exc is not None:
                    raise t.exc
            return [t.result for t in ts]

        res = ctx.run_sim(root, cpu=P["cpu"], max_steps=6000000)
        for i, it in enumerate(items):
            vals = [dg for r in res for (j, dg) in r if j == i]
            ctx.check(len(set(vals)) == len(vals), "unseeded calls repeat",
                      f"{it['what']} {it.get('cls', '')}: {len(vals) - len(set(vals))} of {len(vals)} repeated; {P['nodes']} processes with {P['tasks']} threads")
    else:
        items = [s["item"] for s in ops if s["op"] == "unseeded" and s["item"]["what"] in ("drm",) + S.SKETCH]
        items = items or [{"what": "drm", "cls": ["DG", "SG", "TT", "SS"][P["fix"] % 4], "shape": [4, 3, 4], "rank": [3, 2], "transpose": bool(P["fix2"] % 2)}]

        def root(sim):
            out = []
            for sd in (P["fix"], P["fix2"], P["fix"]):
                np.random.seed(sd)
                out.append([make(it) for it in items])
            return out

        a, b, c = ctx.run_sim(root, cpu=P["cpu"])
        for it, x, y, z in zip(items, a, b, c):
            d = f"{it['what']} {it.get('cls', '')}"
            S.compare(ctx, it, x, z, "unseeded call is not repeatable with a fixed process-wide generator", d)
            if S.volume(it) >= 24:
                ctx.check(digest(x) != digest(y), "unseeded calls repeat", f"{d} under two states of the process-wide generator")
    ctx.nontrivial = True
