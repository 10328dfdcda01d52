"""Worker process: executes the runs i = w (mod W) of a property, or one file."""
import json
import os
import sys


def main(argv):
    cmd, prop, so = argv[:3]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dst import boot, sim

    import importlib

    scripts = prop in ("C12", "C13", "C14", "C18")
    try:
        boot.load(so, scripts=scripts, cookie=prop == "C11")
    except BaseException:
        import traceback

        print(json.dumps({"load_error": traceback.format_exc()[-3000:]}), flush=True)
        os._exit(3)
    from dst import harness

    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    out = sys.stdout
    # the code under test may print; keep our channel clean
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w") if not os.environ.get("DST_DEBUG") else sys.stderr

    def emit(d):
        out.write(json.dumps(d, default=str) + "\n")
        out.flush()

    def summary(i, o, plan, full):
        c = o.ctx
        d = {
            "i": i, "steps": c.steps, "simtime": c.simtime, "switches": c.switches,
            "faults": c.faults, "probes": c.probes, "checks": c.checks,
            "trace": c.trace.hexdigest()[:16], "sims": c.sims, "nontrivial": c.nontrivial,
            "threads": c.threads, "seed": plan.get("seed"),
        }
        import hashlib

        d["key"] = hashlib.sha256(
            json.dumps({k: v for k, v in plan.items() if k not in ("seed", "entropy", "sched")},
                       sort_keys=True, default=str).encode() + d["trace"].encode()
        ).hexdigest()[:16]
        if full:
            d["plan"] = plan
        if o.violation:
            d["violation"] = o.violation
            d["plan"] = plan
        if o.error:
            d["error"] = o.error
            d["plan"] = plan
        return d

    if cmd == "runs":
        seed, tier, n, w, W, budget = argv[3:9]
        n, w, W, budget = int(n), int(w), int(W), float(budget)
        t_end = sim.real_perf_counter() + budget
        for i in range(w, n, W):
            if sim.real_perf_counter() > t_end:
                break
            plan = harness.make_plan(mod, seed, i, tier)
            emit({"at": i})
            o = harness.execute(mod, plan)
            emit(summary(i, o, plan, i < 3))
        emit({"done": w})
    elif cmd == "make":
        emit({"plan": harness.make_plan(mod, argv[3], int(argv[5]), argv[4])})
    elif cmd == "plan":
        plan = json.load(open(argv[3]))
        plan = plan.get("plan", plan)
        o = harness.execute(mod, plan)
        d = summary(0, o, plan, False)
        d["events"] = o.ctx.events
        emit(d)
    elif cmd == "minimise":
        plan, violation = json.load(open(argv[3]))
        best, tries = harness.minimise(mod, plan, violation, float(argv[4]))
        o = harness.execute(mod, best)
        emit({"plan": best, "tries": tries, "violation": o.violation, "events": o.ctx.events,
              "faults": o.ctx.faults, "steps": o.ctx.steps})
    out.flush()
    from dst import child

    child.stop()
    os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main(sys.argv[1:])
