"""Running one plan: context given to the property modules, execution, replay
and minimisation."""
import copy
import gc
import hashlib
import json
import os
import random
import traceback

from dst import boot, sim as simmod
from dst.sim import Sim, SimKill, Violation


def gen_sched(rng, none=0.1):
    r = rng.random()
    seed = rng.getrandbits(32)
    if r < none:
        return {"mode": "none"}
    r = rng.random()
    if r < 0.35:
        return {"mode": "random", "p": rng.choice([0.02, 0.1, 0.3, 0.6, 1.0]), "seed": seed}
    if r < 0.65:
        return {"mode": "pct", "depth": rng.choice([1, 2, 3, 5, 8]),
                "horizon": rng.choice([60, 200, 600, 2000, 6000]), "seed": seed}
    return {"mode": "burst", "burst": rng.choice([3, 10, 40, 150, 600]), "seed": seed}


class Ctx:
    def __init__(self, plan):
        self.plan = plan
        self.sims = 0
        self.recorded = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.simtime = 0.0
        self.switches = 0
        self.trace = hashlib.sha256()
        self.checks = 0
        self.events = []
        self.threads = 0
        self.nontrivial = False

    # -- simulations -------------------------------------------------------
    def run_sim(self, fn, cpu=8, salt=None, entropy=None, max_steps=6000000, setup=None):
        """Run fn(sim) as the root task of a new simulation."""
        sched = self.plan.get("sched", {"mode": "none"})
        if sched.get("mode") == "replay":
            lists = sched.get("lists", [])
            sw = lists[self.sims] if self.sims < len(lists) else []
            sched = {"mode": "replay", "switches": sw}
        elif "seed" in sched:
            sched = dict(sched, seed=f"{sched['seed']}/{self.sims}")
        ent = entropy if entropy is not None else f"{self.plan.get('entropy', 0)}/{self.sims}"
        s = Sim(sched, entropy_seed=ent, max_steps=max_steps)
        s.nodes[0].cpu = cpu
        if salt is not None:
            s.nodes[0].salt = salt
        self.sims += 1
        if setup:
            setup(s)
        try:
            return s.run(lambda: fn(s))
        finally:
            self.recorded.append(s.switches)
            self.steps += s.step
            self.simtime += s.now - 1000.0
            self.switches += s.n_switch
            self.threads += s.started_threads
            for k, v in s.fault_counts.items():
                self.fault(k, v)
            self.trace.update(repr(s.trace_items).encode())
            self.trace.update(repr((s.step, len(s.tasks))).encode())

    # -- bookkeeping -------------------------------------------------------
    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *x):
        self.trace.update(repr(x).encode())
        if len(self.events) < 400:
            self.events.append(x)

    # -- checks ------------------------------------------------------------
    def check(self, cond, kind, detail=""):
        self.checks += 1
        if not cond:
            raise Violation(kind, detail)

    def equal(self, a, b, kind, detail=""):
        """Exact equality of arrays (random numbers)."""
        import numpy as np

        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(kind, f"shape {a.shape} != {b.shape}; {detail}")
        if not np.array_equal(a, b):
            raise Violation(kind, f"arrays differ, max {_maxdiff(a, b)}; {detail}")

    def close(self, a, b, kind, detail="", scale=None, tol=1e-9):
        import numpy as np

        self.checks += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(kind, f"shape {a.shape} != {b.shape}; {detail}")
        if a.size == 0:
            return
        if scale is None:
            scale = float(np.max(np.abs(b))) if b.size else 1.0
        d = np.max(np.abs(a - b))
        if not d <= tol * scale + 1e-300:
            raise Violation(kind, f"difference {d:.3e} at scale {scale:.3e}; {detail}")


def _maxdiff(a, b):
    import numpy as np

    try:
        return float(np.max(np.abs(a.astype(float) - b.astype(float))))
    except Exception:
        return "?"


def from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(boot.REPO + "/"):
            return True
        tb = tb.tb_next
    if exc.__context__ is not None and exc.__context__ is not exc:
        return from_repo(exc.__context__)
    return False


def infrastructure(exc):
    """Failures of the machine or the simulator, not of a result of the code."""
    if not isinstance(exc, Exception) or isinstance(exc, (OSError, MemoryError, boot.HarnessError)):
        return True
    tb, last = exc.__traceback__, ""
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return os.path.basename(last) in ("sim.py", "fs.py", "httpsim.py", "boot.py", "net.py", "harness.py") and os.path.dirname(last).endswith("dst")


def where_in_repo(exc):
    tb, out = exc.__traceback__, ""
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(boot.REPO + "/"):
            out = c.co_name
        tb = tb.tb_next
    return out


class Outcome:
    def __init__(self):
        self.violation = None
        self.error = None
        self.ctx = None


def execute(mod, plan):
    """Execute one plan; never raises for violations or harness errors."""
    out = Outcome()
    ctx = out.ctx = Ctx(plan)
    try:
        mod.run(plan, ctx)
    except Violation as v:
        out.violation = {"kind": v.kind, "detail": str(v.detail)[:2000]}
    except SimKill:
        out.error = "SimKill escaped"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not from_repo(e):
            raise
        txt = "".join(traceback.format_exception(e))[-3000:]
        if from_repo(e):
            out.violation = {
                "kind": f"unexpected {type(e).__name__} in {where_in_repo(e)}",
                "detail": f"{e}\n{txt}"[:3000],
            }
        elif infrastructure(e):
            out.error = txt
        else:
            # the oracle could not even look at what the code returned
            out.violation = {"kind": f"result of unexpected form ({type(e).__name__})", "detail": f"{e}\n{txt}"[:3000]}
        e = None
    gc.collect()
    return out


def replay_plan(plan, ctx):
    p = copy.deepcopy(plan)
    p["sched"] = {"mode": "replay", "lists": [list(map(list, l)) for l in ctx.recorded]}
    return p


def same(v, w):
    return v is not None and w is not None and v["kind"] == w["kind"]


def minimise(mod, plan, violation, seconds=45):
    """Delete operations, faults and switches while the same violation stays."""
    t_end = simmod.real_perf_counter() + seconds
    tries = 0

    def attempt(p):
        nonlocal tries
        if simmod.real_perf_counter() > t_end:
            return None
        tries += 1
        o = execute(mod, p)
        return o if same(o.violation, violation) else None

    o = execute(mod, plan)
    best = plan
    if same(o.violation, violation):
        p = replay_plan(plan, o.ctx)
        o2 = attempt(p)
        if o2 is not None:
            best = p
    # no preemption at all?
    p = copy.deepcopy(best)
    p["sched"] = {"mode": "replay", "lists": []}
    if attempt(p) is not None:
        best = p

    def shrink_list(get, set_):
        nonlocal best
        lst = list(get(best))
        n = max(1, len(lst) // 2)
        while lst and n >= 1:
            i = 0
            changed = False
            while i < len(lst):
                cand = lst[:i] + lst[i + n:]
                p = copy.deepcopy(best)
                set_(p, cand)
                if attempt(p) is not None:
                    best, lst, changed = p, cand, True
                else:
                    i += n
                if simmod.real_perf_counter() > t_end:
                    return
            if n == 1 and not changed:
                break
            n = n // 2 if n > 1 else (1 if changed else 0)

    for _ in range(2):
        before = json.dumps(best, sort_keys=True)
        for key in ("ops", "faults"):
            if isinstance(best.get(key), list):
                shrink_list(lambda b: b[key], lambda p, c: p.__setitem__(key, c))
        if isinstance(best.get("threads"), list):
            for k in range(len(best["threads"])):
                shrink_list(lambda b: b["threads"][k], lambda p, c: p["threads"].__setitem__(k, c))
        if hasattr(mod, "simplify"):
            progress = True
            while progress and simmod.real_perf_counter() < t_end:
                progress = False
                for p in mod.simplify(copy.deepcopy(best)):
                    if attempt(p) is not None:
                        best, progress = p, True
                        break
        # the recorded schedule of the current best plan, pruned
        o = execute(mod, best)
        if same(o.violation, violation):
            p = replay_plan(best, o.ctx)
            if attempt(p) is not None:
                best = p
        for k in range(len(best["sched"].get("lists", []))):
            shrink_list(lambda b: b["sched"]["lists"][k],
                        lambda p, c: p["sched"]["lists"].__setitem__(k, c))
        if json.dumps(best, sort_keys=True) == before:
            break
    return best, tries


def run_seed(prop, seed, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


def make_plan(mod, seed, i, tier):
    rs = run_seed(mod.ID, seed, i)
    rng = random.Random(rs)
    plan = mod.gen(rng, tier)
    plan.setdefault("entropy", rng.getrandbits(32))
    plan["seed"] = rs
    return plan
