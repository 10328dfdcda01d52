"""check <ID> [--tier quick|thorough]   run a check, write its evidence
replay <file>                            re-execute a replay file
selftest [ID...]                         determinism: every seed twice"""
import importlib
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot  # noqa
from dst import meta  # noqa

VERIF = boot.VERIF
W = int(os.environ.get("DST_WORKERS", "8"))


def env(hashseed):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("PYTHON"):
            del e[k]
    e.update(
        PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONUNBUFFERED="1",
        PYTHONUTF8="1",
    )
    return e


def spawn(args, hashseed):
    return subprocess.Popen(
        [boot.PY, os.path.join(VERIF, "dst", "worker.py")] + [str(a) for a in args],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(hashseed), cwd="/", text=True,
    )


def one(args, hashseed=1, timeout=300, last=True):
    """Run a worker that emits one JSON object (last: or several)."""
    p = spawn(args, hashseed)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "worker timed out"}
    for line in reversed(out.splitlines()) if last or not crashed(p.returncode) else ():
        try:
            return json.loads(line)
        except ValueError:
            pass
    if crashed(p.returncode):
        return {"violation": {"kind": f"the process crashed (signal {-p.returncode})", "detail": err[-1500:]}}
    return {"error": f"worker died (exit {p.returncode}): {err[-2000:]}"}


def crashed(code):
    """Killed by a fault of its own, such as corrupted memory (SIGKILL is not)."""
    return -code in (4, 6, 7, 8, 11)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(f, prop, v):
    return f["property"] == prop and f["kind"] == v["kind"] and f.get("match", "") in v["detail"]


def batch(prop, so, seed, tier, n, budget, workers=W, hashbase=1, stop=True):
    """Run n seeds over worker processes; yields result dicts."""
    q = queue.Queue()
    procs = []
    for w in range(workers):
        p = spawn(["runs", prop, so, seed, tier, n, w, workers, budget], hashbase + w)
        procs.append(p)

        def pump(p=p, w=w):
            done, at = False, None
            for line in p.stdout:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "done" in d:
                    done = True
                elif "at" in d:
                    at = d["at"]
                else:
                    q.put(d)
            err = p.stderr.read()
            p.wait()
            q.put({"end": w, "clean": done, "err": f"exit {p.returncode}: {err[-1500:]}",
                   "crash": (p.returncode, at, err[-1500:]) if crashed(p.returncode) and at is not None else None})

        threading.Thread(target=pump, daemon=True).start()
    left = workers
    last = time.time()
    try:
        while left:
            try:
                d = q.get(timeout=5)
            except queue.Empty:
                if time.time() - last > 240:
                    yield {"error": "no progress for 240 s (hang)"}
                    return
                continue
            last = time.time()
            if "end" in d:
                left -= 1
                if d["crash"] and not d["clean"]:
                    code, i, err = d["crash"]
                    r = one(["make", prop, so, seed, tier, i])
                    yield {"crash": {"i": i, "plan": r.get("plan", {}), "seed": r.get("plan", {}).get("seed", 0),
                                     "violation": {"kind": f"the process crashed (signal {-code})", "detail": err},
                                     "batch": [seed, tier, i + 1, d["end"], workers]}}
                elif not d["clean"]:
                    yield {"error": f"worker {d['end']} died: {d['err']}"}
                continue
            yield d
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()


def write_replay(prop, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{rec['plan'].get('seed', 0) & 0xffffffff:08x}.json")
    json.dump(rec, open(path, "w"), indent=1, default=str)
    return path


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"check {prop} tier={tier} seed={seed} repo={boot.REPO}", flush=True)
    m = meta.PROPS[prop]
    ev_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    so = boot.build_extension()
    n, budget, floor = m["runs"][tier], m["budget"][tier], m["floor"]
    agg = dict(evaluations=0, checks=0, steps=0, simtime=0.0, switches=0, sims=0, threads=0)
    faults, probes, keys, traces, samples, known, errors = {}, {}, set(), set(), [], {}, []
    violation = None
    seeds = []
    t_run = time.time()
    gen = batch(prop, so, seed, tier, n, budget)
    for d in gen:
        if "load_error" in d:
            errors.append("code under test does not import:\n" + d["load_error"])
            continue
        if d.get("error"):
            errors.append(d["error"])
            if len(errors) > 3:
                break
            continue
        if d.get("crash"):
            violation = d["crash"]
            break
        agg["evaluations"] += 1
        seeds.append(d["i"])
        for k in ("checks", "steps", "simtime", "switches", "sims", "threads"):
            agg[k] += d[k]
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
        if d["nontrivial"]:
            keys.add(d["key"])
        traces.add(d["trace"])
        if "plan" in d and len(samples) < 3 and not d.get("violation"):
            samples.append({"run": d["i"], "plan": d["plan"], "steps": d["steps"], "faults": d["faults"]})
        if d.get("violation"):
            f = next((f for f in known_findings() if matches(f, prop, d["violation"])), None)
            if f:
                known[f["what"]] = known.get(f["what"], 0) + 1
                continue
            violation = d
            break
    gen.close()
    run_s = time.time() - t_run
    status = 0
    vrec = None
    if violation:
        status = 1
        r = {}
        if "batch" not in violation:
            with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
                json.dump([violation["plan"], violation["violation"]], f)
            r = one(["minimise", prop, so, f.name, m.get("minimise_s", 40)], timeout=240)
            os.unlink(f.name)
        plan = violation["plan"]
        vio = violation["violation"]
        note = ""
        if r.get("violation") and r["violation"]["kind"] == vio["kind"]:
            plan, vio = r["plan"], r["violation"]
        else:
            note = "not minimised: " + str(r.get("error", r.get("violation")))[:500]
        vrec = {"property": prop, "violation": vio, "plan": plan, "original_plan": violation["plan"],
                "run": violation["i"], "run_seed": violation["seed"], "verif_seed": seed,
                "events": r.get("events"), "minimise_tries": r.get("tries"), "note": note}
        path = write_replay(prop, vrec)
        # replay in a fresh process under another hash seed
        if "batch" in violation:
            vrec["batch"] = violation["batch"]
            r2 = replay_crash(prop, so, path, violation["batch"])
        else:
            r2 = one(["plan", prop, so, path], hashseed=4242, timeout=240)
        same = bool(r2.get("violation")) and r2["violation"]["kind"] == vio["kind"]
        vrec["replayed"] = same
        json.dump(vrec, open(path, "w"), indent=1, default=str)
        print(f"{prop}: {vio['kind']}: {vio['detail'][:1500]}")
        print(f"replay reproduces: {same}; run seed {violation['seed']} (run {violation['i']})")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    elif errors:
        status = 2
    elif agg["evaluations"] < floor:
        errors.append(f"only {agg['evaluations']} of at least {floor} runs finished in time")
        status = 2
    for w, c in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {w}")
    wall = time.time() - t0
    zero = [p for p in m.get("probes", []) if not probes.get(p)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": m["level"],
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(keys),
            "rule": m["rule"],
            "samples": samples,
            "seed_range": [min(seeds), max(seeds)] if seeds else [],
            "runs_per_hour": int(agg["evaluations"] / max(run_s, 1e-3) * 3600),
            "seeds_per_hour": int(len(set(seeds)) / max(run_s, 1e-3) * 3600),
            "oracle_checks": agg["checks"],
            "simulations": agg["sims"],
            "scheduling_points": agg["steps"],
            "simulated_seconds": round(agg["simtime"], 3),
            "preemptions": agg["switches"],
            "simulated_threads_started_by_the_code": agg["threads"],
            "faults_fired": dict(sorted(faults.items())),
            "distinct_interleavings": len(traces),
            "interleaving_measure": "sha256 of the sequence of (from task, to task, code line) context switches and event log of a run",
            "probes": dict(sorted(probes.items())),
            "probes_at_zero": zero,
            "real_components": m["real"],
            "stubbed_components": m["stub"],
            "workers": W,
            "known_findings_hit": known,
        },
        "wall_s": round(wall, 2),
        "assumptions": meta.ASSUMPTIONS + m.get("assumptions", []),
        "violations": 1 if vrec else 0,
    }
    if vrec:
        ev["coverage"]["violation"] = vrec
    if errors:
        ev["errors"] = errors[:5]
    with open(ev_path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(ev_path + ".tmp", ev_path)
    for e in errors[:3]:
        print("ERROR of the check:", e[-2500:], flush=True)
    print(f"{prop}: {agg['evaluations']} runs, {len(keys)} distinct non-trivial, {agg['checks']} oracle checks, "
          f"{agg['steps']} scheduling points, {agg['switches']} preemptions, faults {faults}, {wall:.1f}s -> exit {status}", flush=True)
    if zero:
        print("probes never hit:", zero)
    return status


def replay_crash(prop, so, path, b):
    """Corrupted memory may show only after the earlier runs of the process."""
    for h in (1 + b[3], 4242):
        r = one(["plan", prop, so, path], hashseed=h, timeout=240)
        if r.get("violation"):
            return r
    seed, tier, n, w, workers = b
    return one(["runs", prop, so, seed, tier, n, w, workers, 600], hashseed=1 + w, timeout=700, last=False)


def replay(path):
    rec = json.load(open(path))
    so = boot.build_extension()
    if rec.get("batch"):
        r = replay_crash(rec["property"], so, path, rec["batch"])
    else:
        r = one(["plan", rec["property"], so, path], hashseed=99, timeout=600)
    print(json.dumps({k: r.get(k) for k in ("violation", "error", "events", "faults", "steps")}, indent=1))
    if r.get("violation"):
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 2 if r.get("error") else 0


def selftest(props, n=40):
    """Same seeds at two worker counts and under other hash seeds: same traces."""
    so = boot.build_extension()
    bad = 0
    for prop in props:
        res = []
        for workers, hb in ((8, 1), (3, 1000)):
            got = {}
            for d in batch(prop, so, 77, "quick", n, 600, workers, hb):
                if "i" in d:
                    got[d["i"]] = (d["trace"], d["steps"], d["switches"], d["checks"], d["key"],
                                   (d.get("violation") or {}).get("kind"), json.dumps(d["faults"], sort_keys=True))
                else:
                    print(prop, d)
                    bad += 1
            res.append(got)
        diff = [i for i in res[0] if res[0].get(i) != res[1].get(i)]
        print(f"{prop}: {len(res[0])} seeds run twice, {len(diff)} differ {diff[:5]}", flush=True)
        for i in diff[:2]:
            print("   ", res[0].get(i), res[1].get(i))
        bad += len(diff)
    return 1 if bad else 0


def main(a):
    try:
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return check(a[1], tier)
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "selftest":
            return selftest(a[1:] or sorted(meta.PROPS))
        if a[0] == "setup":
            print(boot.build_extension())
            return 0
    except boot.HarnessError as e:
        print("ERROR of the check:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
