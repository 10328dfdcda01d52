"""The experiment store under crashes and disk errors."""
import copy
import csv
import os

from dst import fs as F
from dst.harness import gen_sched

ID = "C12"
BAD = {"error": ValueError, "interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit, "type": TypeError, "key": KeyError,
       "attribute": AttributeError, "arith": ZeroDivisionError, "os": OSError, "assertion": AssertionError}
TEXTS = ["SSA", "stream, two", 'quo"te', "line\nbreak", "ümläut", "x" * 300, "a=b;c", "None", "NA"]


def gen(rng, tier):
    nops = rng.randint(2, 7 if tier == "quick" else 14)
    cols = rng.sample(["rank", "run", "drm", "dim", "flag"], rng.randint(1, 3))
    ncfg = rng.randint(1, 6)
    cfgs = []
    for i in range(ncfg):
        cfgs.append({"name": rng.choice(["OTTS", "STTA"]), "kw": {c: val(rng, c, i) for c in cols},
                     "res": {"error": rng.choice([rng.random(), rng.random() * 1e-12, 0.1, 1e300, 3.0]),
                             "time_taken": rng.random() * 10, **({"extra": rng.random()} if rng.random() < 0.2 else {})}})
    ops = []
    for _ in range(nops):
        r = rng.random()
        o = {"op": "do" if r < 0.68 else "save" if r < 0.8 else "open" if r < 0.95 else "overwrite",
             "cfg": rng.randrange(ncfg), "via": rng.choice(["init", "load"])}
        if o["op"] == "do" and rng.random() < 0.2:
            o["bad"] = rng.choice(sorted(BAD))
        if rng.random() < 0.65:
            o["faults"] = [F.gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        ops.append(o)
    return {"params": {"cfgs": cfgs, "bufsize": rng.choice([16, 64, 256, 1024, 8192, 65536]),
                       "old": rng.choice([0, 0, 1, 5, 60, 60, 300, 0, 5, 60, 1, 60, 300, 1100]), "dir": rng.random() < 0.5, "name": rng.choice(["results.csv", "cp_tensor.csv", "data"])},
            "ops": ops, "sched": gen_sched(rng, none=0.9)}


def val(rng, c, i):
    if c == "drm":
        return rng.choice(TEXTS)
    if c == "flag":
        return rng.random() < 0.5
    if c == "dim":
        return rng.choice([0.1, 1 / 3, 2.5, 1e-7]) + i
    return rng.choice([1, 5, 30, 10**6]) + i


def key(row):
    return (row["name"],) + tuple(sorted((k, v) for k, v in row["kw"].items()))


def same(text, v):
    """Does the text of a cell stand for the recorded value?"""
    if isinstance(v, bool) and text == str(v):
        return True
    if isinstance(v, float) and v != v:
        return text == ""
    if isinstance(v, (int, float)):  # booleans among numbers may become numbers
        try:
            return float(text) == float(v)
        except ValueError:
            return False
    return text == str(v)


def read_rows(path):
    """The results file as plain rows, with a parser of our own choice."""
    with F.real_open(path, "r", encoding="utf-8", newline="") as f:
        rows = list(csv.reader(f))
    if not rows:
        raise ValueError("empty file")
    head = rows[0]
    for r in rows[1:]:
        if len(r) != len(head):
            raise ValueError(f"row of {len(r)} cells under {len(head)} columns: {r!r}")
    return head, [dict(zip(head, r)) for r in rows[1:]]


def row_is(cells, row):
    want = {"name": row["name"], **row["kw"], **row["res"]}
    return all(k in cells and same(cells[k], v) for k, v in want.items()) and all(
        v == "" for k, v in cells.items() if k not in want)


def disk_is(path, rows):
    if not os.path.exists(path):
        return "no file" if rows else None
    try:
        _, cells = read_rows(path)
    except (ValueError, csv.Error, UnicodeDecodeError) as e:
        return f"unreadable: {e}"
    if len(cells) != len(rows):
        return f"{len(cells)} rows for {len(rows)}"
    for c, r in zip(cells, rows):
        if not row_is(c, r):
            return f"row {c} for {r}"
    return None


def run(plan, ctx):
    p = plan["params"]

    def root(sim):
        with F.FS(sim, p["bufsize"]) as fs:
            story(plan, ctx, sim, fs)
            ctx.event("ops", fs.total, tuple(k for k, _ in fs.log))

    ctx.run_sim(root, max_steps=2000000)
    ctx.nontrivial = bool(ctx.faults)


def story(plan, ctx, sim, fs):
    from scripts.experiment_base import Experiment

    p = plan["params"]
    d = fs.root
    if p["dir"]:
        d = os.path.join(fs.root, "sub dir")
        os.mkdir(d)
    path = os.path.join(d, p["name"])
    disk = []  # results promised to be in the file
    if p["old"]:
        kws = p["cfgs"][0]["kw"]
        with F.real_open(path, "w", encoding="utf-8", newline="") as f:
            w = csv.writer(f)
            w.writerow(["name", "error", "time_taken"] + list(kws))
            for i in range(p["old"]):
                r = {"name": "old", "kw": {k: (f"t{i}" if isinstance(v, str) else v) for k, v in kws.items()},
                     "res": {"error": i / 7, "time_taken": float(i)}}
                w.writerow([r["name"], repr(r["res"]["error"]), repr(r["res"]["time_taken"])] + [r["kw"][k] for k in kws])
                disk.append(r)
    proc = F.Process(sim, fs)
    mem = None  # rows in the memory of the process
    exp = None

    def check(allowed, where):
        why = [disk_is(path, rows) for rows in allowed]
        ctx.check(None in why, "results file lost or damaged", f"{where}: {why}; faults {fs.fired}")
        return allowed[why.index(None)]

    def fresh():
        nonlocal exp, mem
        exp = Experiment(path)
        mem = list(disk)
        n = len(exp.data)
        ctx.check(n == len(disk), "reloaded results differ from the file", f"{n} rows for {len(disk)}")
        for i, r in enumerate(disk):
            got = {c: exp.data[c][i] for c in exp.data.columns}
            for k, v in {"name": r["name"], **r["kw"], **r["res"]}.items():
                ctx.check(k in got and (got[k] == v or same(str(got[k]), v)), "reloaded results differ from the file", f"row {i} {k}: {got.get(k)!r} for {v!r}")

    fresh()
    for o in plan["ops"]:
        op, fl = o["op"], o.get("faults", ())
        where = f"{op} {fl}"
        if op == "do":
            cfg = p["cfgs"][o["cfg"]]
            calls, bad = [], o.get("bad")

            def func(inp, **kw):
                calls.append(kw)
                if bad:
                    raise BAD[bad]("the experiment")
                return dict(cfg["res"])

            known = any(key(r) == key(cfg) for r in mem)
            st, e = proc.call(lambda: exp.do_experiment(None, cfg["name"], func, **cfg["kw"]), fl)
            after = mem if known else mem + [cfg]
            if known:
                ctx.check(not calls, "finished experiment was run again", where)
            if bad and calls:  # whatever else happens, there is no result
                ctx.check(st != "ok", "failure of the experiment was swallowed", f"{bad}; {where}")
                disk = check([disk], f"experiment failed ({bad}); " + where)
                ctx.fault("experiment fails")
            elif st == "ok":
                ctx.check(known or calls, "experiment neither run nor recorded before", where)
                if not known:
                    ctx.probe("recorded despite faults" if fs.fired else "recorded")
                    disk = check([after], "recording returned; " + where)
                    mem = after
                else:
                    disk = check([disk], where)
            else:
                disk = check([disk, after], where)
        elif op == "save":
            st, e = proc.call(exp.save, fl)
            disk = check([mem] if st == "ok" else [disk, mem], where)
        elif op == "overwrite":
            st, e = proc.call(lambda: Experiment(path, force_overwrite=True), fl)
            check([disk], where)
            if st == "ok":
                exp, mem = e, []
        else:
            st, e = proc.call(lambda: Experiment(path) if o["via"] == "init" or not os.path.exists(path) else Experiment.load(path), fl)
            check([disk], where)
            if st == "ok":
                exp, mem = e, list(disk)
                ctx.check(len(exp.data) == len(disk), "loading returned other results than the file holds", f"{len(exp.data)} for {len(disk)}; {where}")
        ctx.event(op, st, len(disk))
        if st == "crash":
            ctx.probe("crash in " + op)
            fresh()
        elif st == "error":
            ctx.probe("error in " + op)
            ctx.check(proc.fired or op == "do" and bad and calls, "operation fails without a fault", f"{where}: {e!r}")
            bad = None
            if op == "do" and o.get("bad") and o["via"] == "init":
                continue  # tried again later, if at all
            if op == "do" and not known and disk_is(path, disk) is None:
                # not recorded for the running process: it must run again
                calls.clear()
                exp.do_experiment(None, cfg["name"], func, **cfg["kw"])
                ctx.check(len(calls) == 1, "result whose recording failed counts as recorded", where)
                mem = mem + [cfg]
                disk = check([mem], "retry of " + where)
                ctx.probe("retried")
    # a last process sees everything
    proc.restart()
    fresh()


def simplify(plan):
    P = plan["params"]
    for k, v in (("old", 0), ("dir", False), ("bufsize", 8192), ("bufsize", 16)):
        if P[k] != v:
            q = copy.deepcopy(plan)
            q["params"][k] = v
            yield q
    for i, o in enumerate(plan["ops"]):
        for j in range(len(o.get("faults", ()))):
            q = copy.deepcopy(plan)
            del q["ops"][i]["faults"][j]
            yield q
        if o.get("bad"):
            q = copy.deepcopy(plan)
            del q["ops"][i]["bad"]
            yield q
