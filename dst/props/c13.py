"""Batches of experiments that are stopped and restarted."""
import copy
import os

import numpy as np

from dst import fs as F
from dst.harness import gen_sched
from dst.props import c12
from dst.sim import injected

ID = "C13"

COLS = ["rank", "left_rank", "run", "drm_type", "dim", "flag", "shape", "note"]


class Stop(Exception):
    pass


STOP = {"stop": Stop, **injected(memory=MemoryError, value=ValueError, type=TypeError, key=KeyError, attribute=AttributeError, os=OSError,
                                 arith=ZeroDivisionError, linalg=np.linalg.LinAlgError, assertion=AssertionError)}


def alpha():
    pass


def beta():
    pass


class Gamma:
    pass


OBJ = {"alpha": alpha, "beta": beta, "Gamma": Gamma, "sin": np.sin, "LinAlgError": np.linalg.LinAlgError}
TEXT = ["a", "b", "OTTS", "two words", "x,y", 'q"q', "line\nbreak", "tab\tbed", "ü", " lead", "trail ", "NA-like", "12abc", "1-2", "#c", "'s'",
        "-", "e5", "\\n", "a\r\nb", "N/A", "NA", "null", "NULL", "-0x", "Tru", "1_0x"]


def gen_value(rng, kind):
    """JSON description of a value."""
    if kind == "int":
        return {"t": "int", "v": rng.choice([0, 1, 2, 5, -3, 30, 10**6, 2**32, 2**53 - 1, rng.randint(0, 40)])}
    if kind == "npint":
        return {"t": "npint", "v": rng.randint(0, 40)}
    if kind == "float":
        return {"t": "float", "v": rng.choice([0.5, 0.1, 1 / 3, 2.5, -1.25, 1e-300, 1e22, 1e16, 3e-5, 123456789.123, 2.0, 7.0, rng.random(), rng.random() * 1e-9])}
    if kind == "npfloat":
        return {"t": "npfloat", "v": rng.choice([0.1, 1e-12, 2.5, rng.random()])}
    if kind == "bool":
        return {"t": rng.choice(["bool", "bool", "npbool"]), "v": rng.random() < 0.5}
    if kind == "odd":
        return rng.choice([{"t": "nan", "v": None}, {"t": "inf", "v": rng.choice([1, -1])},
                           {"t": "text", "v": "long " * rng.choice([20, 2000])}, {"t": "text", "v": "nan"},
                           {"t": "float", "v": rng.choice([-0.0, 5e-324, 1.7976931348623157e308])}])
    if kind == "text":
        return {"t": "text", "v": rng.choice(TEXT)}
    if kind == "numtext":
        return {"t": "text", "v": rng.choice(["2", "10", "-3", "2022", "0.5", "1.25", str(rng.randint(2, 40))])}
    if kind == "none":
        return {"t": "none", "v": None}
    if kind == "tuple":
        return {"t": "tuple", "v": [rng.randint(1, 4) for _ in range(rng.randint(0, 3))]}
    return {"t": "obj", "v": rng.choice(sorted(OBJ))}


def near(rng, g):
    """A value of the same kind that is easily mistaken for the given one."""
    t, v = g["t"], g["v"]
    if t in ("float", "npfloat"):
        big = abs(v) > 1e300
        return {"t": t, "v": rng.choice([float(np.nextafter(v, 0)), v * (1 - 10.0 ** -rng.randint(3, 13)), -v, v if big else v * 10, 0.0 if v < 1e-12 else v - 1e-12])}
    if t in ("int", "npint"):
        return {"t": t, "v": rng.choice([v + 1, -v, v * 10, v - 1]) if abs(v) < 2**40 else v - 1}
    if t in ("bool", "npbool"):
        return {"t": t, "v": not v}
    if t == "tuple":
        return rng.choice([{"t": t, "v": v[::-1]}, {"t": t, "v": v + [1]}, {"t": "text", "v": ", ".join(map(str, v + [0, 0]))}])
    if t == "text" and 0 < len(v) < 200:
        w = rng.choice([v.upper(), v.lower(), v + " ", " " + v, v + "x", v[:-1] or "z", v.replace(",", ";")])
        if number(w) is None:
            return {"t": t, "v": w}
    return g


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def value(g):
    t, v = g["t"], g["v"]
    return {"npint": lambda: np.int64(v), "npfloat": lambda: np.float64(v), "tuple": lambda: tuple(v),
            "obj": lambda: OBJ[v], "nan": lambda: float("nan"), "inf": lambda: v * np.inf, "npbool": lambda: np.bool_(v)}.get(t, lambda: v)()


def canon(g):
    """Values that mean the same configuration have the same canonical form."""
    t, v = g["t"], g["v"]
    if t == "nan" or (t == "text" and v == "nan"):
        return ("empty", "")  # an empty cell of the file
    if t == "inf":
        return ("num", v * np.inf)
    if t in ("int", "npint", "float", "npfloat", "bool", "npbool"):
        return ("num", float(v))
    if t == "tuple":
        return ("text", str(tuple(v)))
    if t == "none":
        return ("text", "None")
    if t == "text" and number(v) is not None:  # read back as a number
        return ("num", number(v))
    return ("text", str(v))


KINDS = ["int", "int", "int", "npint", "float", "float", "npfloat", "bool", "text", "text", "numtext", "none", "tuple", "obj", "odd"]


def gen(rng, tier):
    exps = []
    for name in rng.sample(["OTTS", "STTA", "HMT", "TT-SVD", "a,b"], rng.choice([1, 1, 2, 3])):
        cols = rng.sample(COLS, rng.randint(1, 3))
        pools = {}
        for c in cols:
            kinds = rng.sample(KINDS, rng.choice([1, 1, 2, 3]))
            pools[c] = [gen_value(rng, rng.choice(kinds)) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.3:
                pools[c].append(near(rng, rng.choice(pools[c])))
        res = {"error": "float"}
        if rng.random() < 0.7:
            res["time_taken"] = "float"
        if rng.random() < 0.2:
            res["extra"] = rng.choice(["float", "int", "text"])
        exps.append({"name": name, "cols": cols, "pools": pools, "res": res})
    seen, cfgs = set(), []
    for _ in range(rng.randint(1, 10 if tier == "quick" else 20)):
        e = rng.randrange(len(exps))
        kw = {c: rng.choice(exps[e]["pools"][c]) for c in exps[e]["cols"]}
        k = (e,) + tuple((c, canon(kw[c])) for c in sorted(kw))
        if k in seen:
            continue
        seen.add(k)
        res = {}
        for r, t in exps[e]["res"].items():
            res[r] = rng.random() * rng.choice([1, 1e-12]) if t == "float" else rng.randint(0, 9) if t == "int" else rng.choice(["ok", "not converged"])
        cfgs.append({"name": exps[e]["name"], "kw": kw, "res": res, "order": rng.random() < 0.2})
    rounds = []
    for _ in range(rng.randint(1, 4)):
        stop = rng.random()
        r = {"order": rng.getrandbits(31), "dup": rng.random() < 0.3, "stop": None}
        if stop < 0.8:
            r["stop"] = {"at": rng.randrange(len(cfgs)), "how": rng.choice(["clean", "fail", "fail", "ki", "exit", "fault", "fault", "fault", "instance"]),
                         "exc": rng.choice(sorted(STOP)), "fault": F.gen_fault(rng)}
        rounds.append(r)
    return {"params": {"cfgs": cfgs, "bufsize": rng.choice([16, 256, 8192]), "load": rng.random() < 0.3, "entropy2": rng.getrandbits(31),
                       "old": rng.choice([0, 0, 0, 0, 0, 0, 1, 30, 120, 400]), "oldcol": rng.choice(["seq", "seq", *COLS]), "oldkind": rng.choice(["int", "text", "float"]),
                       "late": rng.choice([0] * 12 + [1, 30, 130])},
            "ops": rounds, "sched": gen_sched(rng, none=0.9)}


def run(plan, ctx):
    def root(sim):
        with F.FS(sim, plan["params"]["bufsize"]) as fs:
            story(plan, ctx, sim, fs)
            ctx.event("ops", fs.total)

    ctx.run_sim(root, max_steps=3000000)
    ctx.nontrivial = len(plan["ops"]) > 1 or bool(ctx.faults)


def cell(g):
    """What the file should hold for a parameter."""
    t, v = g["t"], g["v"]
    if t == "nan":
        return np.nan
    if t == "inf":
        return v * np.inf
    if t == "text":
        return canon(g)[1] if canon(g)[0] == "num" else v
    if t in ("int", "npint", "float", "npfloat", "bool", "npbool"):
        return v
    return canon(g)[1]


def story(plan, ctx, sim, fs):
    from scripts.experiment_base import Experiment

    p = plan["params"]
    path = os.path.join(fs.root, "results.csv")
    proc = F.Process(sim, fs)
    rows = [{"name": c["name"], "kw": {k: cell(g) for k, g in c["kw"].items()}, "res": c["res"]} for c in p["cfgs"]]
    done = []  # indices in the order of recording
    old = []
    for i in range(p.get("old", 0)):  # rows of other experiments, recorded long before
        v = {"int": i, "text": f"t{i}", "float": i + 0.5}[p["oldkind"]]
        old.append({"name": "earlier", "kw": {p["oldcol"]: v}, "res": {"error": i / 7, "time_taken": 1.0}})
    if old:
        with F.real_open(path, "w", encoding="utf-8", newline="") as f:
            f.write(f"name,error,time_taken,{p['oldcol']}\n")
            f.writelines(f"earlier,{q['res']['error']!r},1.0,{q['kw'][p['oldcol']]}\n" for q in old)

    def on_disk():
        """Which configurations the file holds, in order."""
        if not os.path.exists(path):
            ctx.check(not old, "results lost or damaged", "the file of earlier results is gone")
            return []
        _, cells = c12.read_rows(path)
        out = []
        others = [c for c in cells if c["name"] == "earlier"]
        ctx.check(len(others) == len(old) and all(c12.row_is(c, q) for c, q in zip(others, old)), "results lost or damaged",
                  f"results of others changed: {[(c, q) for c, q in zip(others, old) if not c12.row_is(c, q)][:3]}, {len(others)} rows for {len(old)}")
        for c in cells:
            if c["name"] == "earlier":
                continue
            hit = [i for i, r in enumerate(rows) if c12.row_is(c, norm(r, c))]
            ctx.check(len(hit) == 1, "row of the file is not what was recorded", f"{c}: matches {hit} of {rows}")
            out.append(hit[0])
        return out

    rounds = list(plan["ops"]) + [{"order": 1, "dup": True, "stop": None}, {"order": 2, "dup": False, "stop": None}]
    for rn, r in enumerate(rounds):
        last = rn == len(rounds) - 1
        order = list(range(len(rows)))
        np.random.RandomState(r["order"]).shuffle(order)
        if r["dup"]:
            order = order + order[: len(order) // 2 + 1]
        exp = Experiment.load(path) if p["load"] and os.path.exists(path) else Experiment(path)
        stop = r["stop"]
        for n, i in enumerate(order):
            c = p["cfgs"][i]
            calls = []
            here = stop is not None and n == min(stop["at"], len(order) - 1)
            if here and stop["how"] == "clean":
                break
            if here and stop["how"] == "instance":
                exp = Experiment(path)
            kw = {k: value(g) for k, g in c["kw"].items()}
            if c["order"] and rn % 2:
                kw = dict(reversed(list(kw.items())))
            given = dict(kw)

            def func(inp, **k):
                calls.append((inp, k))
                if here and stop["how"] in ("fail", "ki", "exit"):
                    sim.fault("experiment-" + stop["how"])
                    raise {"ki": KeyboardInterrupt, "exit": SystemExit}.get(stop["how"]) or STOP[stop.get("exc", "stop")]
                return dict(c["res"])

            faults = [stop["fault"]] if here and stop["how"] == "fault" else []
            st, e = proc.call(lambda: exp.do_experiment("input", c["name"], func, **kw), faults)
            known = i in done
            where = f"round {rn}, {c['name']} {given}, {st}"
            ctx.check(len(calls) <= 1, "experiment run more than once", where)
            if known:
                ctx.check(not calls, "finished experiment was run again", where)
            if calls:
                ctx.check(calls[0][0] == "input" and list(calls[0][1]) == list(given) and all(calls[0][1][k] is given[k] or calls[0][1][k] == given[k] for k in given),
                          "experiment called with other arguments", f"{where}: {calls[0]}")
            if st == "ok":
                ctx.check(known or len(calls) == 1, "experiment skipped although nothing is recorded", where)
                if not known:
                    done.append(i)
                    ctx.probe("ran")
                else:
                    ctx.probe("skipped")
                ctx.check(on_disk() == done, "file does not hold each result once", f"{where}: {on_disk()} for {done}")
            elif st == "error":
                if here and stop["how"] in ("fail", "ki", "exit") and calls:
                    ctx.check(isinstance(e, (*STOP.values(), KeyboardInterrupt, SystemExit)), "error of the experiment replaced", f"{where} {e!r}")
                    ctx.check(on_disk() == done, "failed experiment recorded", f"{where}")
                    ctx.probe("experiment " + stop["how"])
                else:
                    ctx.check(proc.fired, "experiment store fails without a fault", f"{where} {e!r}")
                    ctx.probe("store error")
                    d = on_disk()
                    ctx.check(d in (done, done + [i]), "results lost or damaged", f"{where}: {d} for {done}")
                    if d != done:
                        done = d
                        exp = Experiment(path)
                if stop["how"] in ("ki", "exit"):
                    break
            else:
                d = on_disk()
                ctx.check(d in (done, done if known else done + [i]), "results lost or damaged", f"{where}: {d} for {done}")
                done = d
                ctx.probe("crash")
                break
            ctx.event(rn, i, st)
        proc.restart()
        if rn == 0 and p.get("late") and os.path.exists(path):  # results of others recorded in between
            head, _ = c12.read_rows(path)
            new = [{"name": "earlier", "kw": {}, "res": {"error": i / 3}} for i in range(p["late"])]
            with F.real_open(path, "a", encoding="utf-8", newline="") as f:
                f.writelines(",".join({"name": "earlier", "error": repr(q["res"]["error"])}.get(h, "") for h in head) + "\n" for q in new)
            old += new
        if last:
            ctx.check(sorted(done) == list(range(len(rows))), "configurations without a result", f"{done}")
            if os.path.exists(path):
                head, _ = c12.read_rows(path)
                allowed = {"name", "error", "time_taken"}
                for q in rows + old:
                    allowed |= set(q["kw"]) | set(q["res"])
                ctx.check(len(head) == len(set(head)) and set(head) <= allowed, "columns that no experiment recorded", f"{head}")
                ctx.probe("complete")


def norm(r, cells):
    return r


def simplify(plan):
    P = plan["params"]
    for i in range(len(P["cfgs"])):
        if len(P["cfgs"]) > 1:
            q = copy.deepcopy(plan)
            del q["params"]["cfgs"][i]
            yield q
    for k, v in (("load", False), ("bufsize", 8192), ("old", 0), ("old", 1), ("old", P.get("old", 0) // 2), ("late", 0), ("late", P.get("late", 0) // 2)):
        if P.get(k) != v and (k not in ("old", "late") or v < P.get(k, 0)):
            q = copy.deepcopy(plan)
            q["params"][k] = v
            yield q
    cols = sorted({c for g in P["cfgs"] for c in g["kw"]})
    for c in cols:
        q = copy.deepcopy(plan)
        for g in q["params"]["cfgs"]:
            if len(g["kw"]) > 1:
                g["kw"].pop(c, None)
        ks = [(g["name"], tuple(sorted((k, canon(v)) for k, v in g["kw"].items()))) for g in q["params"]["cfgs"]]
        if len(set(ks)) == len(ks) and q != plan:
            yield q
