"""Concurrent callers sharing objects."""
import copy

from dst import model as M
from dst import optable as O
from dst.harness import Ctx, gen_sched

ID = "C06"
ACTS = {"drm": ["apply", "T", "slice", "increase", "new"],
        "sketch-update": ["add", "mul", "T", "neg", "sub", "increase", "merge", "Tadd"],
        "algebra": O.OPS["algebra"].ACTS, "tensor-train": O.OPS["tensor-train"].ACTS,
        "linear-map": O.OPS["linear-map"].ACTS, "map-many": O.OPS["map-many"].ACTS, "sketch": None, "blocked": None, "solve": None, "seeded-constructor": None}


def gen(rng, tier):
    objs = []
    for _ in range(rng.randint(1, 2)):
        objs.append(O.gen_one(rng, ["map-many"] if rng.random() < 0.3 else None))
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(objs))
            op = {"obj": i}
            acts = ACTS[objs[i]["op"]]
            if objs[i]["op"] == "map-many":
                op["which"] = rng.randrange(4)
                op["side"] = rng.choice(["left", "left", "right"])
            if acts:
                op["act"] = rng.choice(acts)
            elif objs[i]["op"] == "sketch":
                op["method"] = rng.choice(["stream", "orth", "hmt"])
                op["seed"] = rng.getrandbits(31)
            elif objs[i]["op"] == "seeded-constructor":
                op["what"] = rng.choice(["normal", "tt", "tt-orthog", "cp", "tucker", "sparse"])
                op["seed"] = rng.getrandbits(31)
            ops.append(op)
        threads.append(ops)
    return {"params": {"objs": objs, "cpu": rng.choice([1, 2, 3, 8])}, "threads": threads, "sched": gen_sched(rng, none=0.0)}


def spec_of(objs, op):
    g = objs[op["obj"]]
    s = copy.deepcopy(g["spec"])
    for k in ("act", "method", "seed", "what", "which", "side"):
        if k in op:
            s[k] = op[k]
    return g["op"], s


def run(plan, ctx):
    objs, cpu = plan["params"]["objs"], plan["params"]["cpu"]

    def alone(sim):
        out = []
        for ops in plan["threads"]:
            row = []
            for op in ops:
                name, s = spec_of(objs, op)
                cls = O.OPS[name]
                row.append(cls.call(cls.build(s), s))
            out.append(row)
        return out

    want = Ctx({"sched": {"mode": "none"}, "entropy": 3}).run_sim(alone, cpu=cpu)

    def root(sim):
        shared = [O.OPS[g["op"]].build(g["spec"]) for g in objs]
        snaps = [{k: M.snapshot(v) for k, v in o.items()} for o in shared]

        def caller(k):
            out = []
            for op in plan["threads"][k]:
                name, s = spec_of(objs, op)
                out.append(O.OPS[name].call(shared[op["obj"]], s))
            return out

        tasks = [sim.spawn(caller, k, name=f"caller{k}") for k in range(len(plan["threads"]))]
        sim.join(*tasks)
        for k, t in enumerate(tasks):
            if t.exc is not None:
                raise t.exc
            for op, got, w in zip(plan["threads"][k], t.result, want[k]):
                name, s = spec_of(objs, op)
                ctx.probe(name)
                O.compare(ctx, name, got, w, "concurrent caller got another result than alone",
                          f"thread {k} {s.get('act', s.get('what', s.get('method', '')))}")
        for i, (o, sn) in enumerate(zip(shared, snaps)):
            for k, v in o.items():
                d = M.unchanged(v, sn[k])
                ctx.check(d is None, "shared object changed", f"{objs[i]['op']} {k}{d}")

    ctx.run_sim(root, cpu=cpu, max_steps=6000000)
    ctx.nontrivial = ctx.switches > 0


def simplify(plan):
    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            yield p
