"""Failures at arbitrary points inside public operations: the error reaches the
caller, nothing changed, and a retry succeeds."""
import gc

import numpy as np

from dst import model as M
from dst import optable as O
from dst.harness import Ctx, gen_sched
from dst.sim import Injection, SimKill, injected

ID = "C05"


EXC = injected(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, LinAlgError=np.linalg.LinAlgError, RuntimeError=RuntimeError,
               OSError=OSError, ValueError=ValueError, FloatingPointError=FloatingPointError, SystemExit=SystemExit)
INJ = tuple(EXC.values())


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.25:
            shape = M.gen_shape(rng, maxsize=80)
            g = {"op": "iadd", "spec": {"a": M.gen_sum(rng, shape, M.KINDS, rng.randint(1, 3)),
                                        "b": O.any_tensor(rng, shape, sums=0.6), "self": rng.random() < 0.1,
                                        "n": rng.randint(1, 2)}}
        else:
            g = O.gen_one(rng)
        g["fail"] = [{"frac": rng.choice([rng.random(), rng.random() ** 4]), "exc": rng.choice(sorted(EXC)),
                      "anywhere": rng.random() < 0.7} for _ in range(rng.choice([1, 1, 2, 3]))]
        ops.append(g)
    return {"params": {"cpu": rng.choice([1, 2, 8])}, "ops": ops, "sched": gen_sched(rng, none=0.5)}


class iadd:
    @staticmethod
    def build(s):
        a = M.build(s["a"])[0]
        return {"a": a, "b": a if s.get("self") else M.build(s["b"])[0]}

    @staticmethod
    def call(o, s):
        a = o["a"]
        for _ in range(s["n"]):
            a += o["b"]
        return [a.to_numpy()]


def table(name):
    return iadd if name == "iadd" else O.OPS[name]


def run(plan, ctx):
    cpu = plan["params"]["cpu"]
    for n, g in enumerate(plan["ops"]):
        cls, spec = table(g["op"]), g["spec"]
        base = Ctx({"sched": {"mode": "none"}, "entropy": 1})
        pts = {}

        def ref(sim):
            me = sim.current
            o = cls.build(spec)
            a, b = sim.step, me.steps
            r = cls.call(o, spec)
            pts["all"], pts["me"] = sim.step - a, me.steps - b
            return r

        want = base.run_sim(ref, cpu=cpu)
        what = f"{g['op']} {spec.get('act', spec.get('what', spec.get('method', '')))}"

        def root(sim):
            me = sim.current
            unraisable = []
            o = cls.build(spec)
            if g["op"] == "iadd":
                return iadd_run(ctx, sim, o, spec, g, want, pts, what)
            snap = {k: M.snapshot(v) for k, v in o.items()}
            for f in g["fail"]:
                total = pts["all"] if f["anywhere"] else pts["me"]
                inj = Injection(1 + int(f["frac"] * max(total, 1)), EXC[f["exc"]],
                                tasks=None if f["anywhere"] else (lambda t: t is me))
                sim.injections = [inj]
                fired_in = []
                err = None
                try:
                    cls.call(o, spec)
                except SimKill:
                    raise
                except BaseException as e:  # noqa
                    err = e
                    e = None
                sim.injections = []
                fired = inj.fired is not None
                name = type(err).__name__ if err is not None else None
                inside = err is not None and chain_has(err)
                err_is = isinstance(err, INJ)
                txt = repr(err)[:200]
                err = None
                gc.collect()
                sim.yield_until(lambda: all(t.state == "done" or t is me for t in sim.tasks))
                gc.collect()
                where = f"{what}, {f['exc']} at {inj.fired}"
                ctx.event(n, fired, name)
                if fired:
                    ctx.probe("failed")
                    ctx.check(name is not None, "error swallowed", where)
                    ctx.check(inside, "error replaced by another", f"{txt}; {where}")
                    ctx.probe("error translated", 0 if err_is else 1)
                else:
                    ctx.check(name is None, "operation fails without injection", f"{txt}; {where}")
                for k, v in o.items():
                    d = M.unchanged(v, snap[k])
                    ctx.check(d is None, "operand changed by a failed operation", f"{k}{d}; {where}")
            got = cls.call(o, spec)
            O.compare(ctx, g["op"], got, want, "retry after a failure gives another result", what)
            for k, v in o.items():
                d = M.unchanged(v, snap[k])
                ctx.check(d is None, "operand changed by an operation", f"{k}{d}; {what}")
            # and once more with fresh operands: no shared state was left behind
            got = cls.call(cls.build(spec), spec)
            O.compare(ctx, g["op"], got, want, "a failure changed later results", what)

        ctx.run_sim(root, cpu=cpu)
    ctx.nontrivial = bool(ctx.faults)


def chain_has(e, depth=0):
    if isinstance(e, INJ):
        return True
    if depth > 5 or e is None:
        return False
    return chain_has(e.__cause__, depth + 1) or chain_has(e.__context__, depth + 1)


def iadd_run(ctx, sim, o, spec, g, want, pts, what):
    a, b = o["a"], o["b"]
    for f in g["fail"]:
        before = list(a.tensors)
        bl = list(b.tensors) if hasattr(b, "tensors") else [b]
        inj = Injection(1 + int(f["frac"] * (6 + 3 * len(bl))), EXC[f["exc"]])
        sim.injections = [inj]
        err = None
        x = a
        try:
            x += b
        except INJ as e:
            err = e
        sim.injections = []
        ctx.check(x is a, "in-place addition made a new object", what)
        now = list(a.tensors)
        same = len(now) == len(before) and all(p is q for p, q in zip(now, before))
        full = len(now) == len(before) + len(bl) and all(p is q for p, q in zip(now, before + bl))
        if inj.fired is not None:
            ctx.probe("iadd failed")
            ctx.check(err is not None, "error swallowed", what)
            ctx.check(same or full, "in-place addition left a part", f"{len(before)} + {len(bl)} -> {len(now)}; {inj.fired}")
        else:
            ctx.check(full, "in-place addition incomplete", f"{len(before)} + {len(bl)} -> {len(now)}")
        if not same and b is not a:  # undo for the next attempt
            del a.tensors[len(before):]
        elif not same:
            return
    got = iadd.call(o, spec)
    O.compare(ctx, "iadd", got, want, "retry after a failure gives another result", what)
