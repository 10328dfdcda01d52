"""Downloads over a faulty network onto a faulty disk."""
import copy
import io
import os
import sys

from dst import fs as F
from dst import httpsim as H
from dst.harness import gen_sched
from dst.sim import Injection, ProcessCrash, Violation

ID = "C14"
NAMES = ["a.tns.gz", "covtype.data.gz", "b", "c.zip", "file name.csv", "x.tar", "d.tns", "q.zip?raw=1"]


def body(seed, n):
    import random

    return random.Random(seed).randbytes(n)


def gen_fate(rng, whole=0.3):
    r = rng.random()
    f = {"seg": rng.choice([1, 7, 100, 536, 1460, 9000, 70000]), "ranges": rng.random() < 0.5, "chunk": rng.choice([1, 64, 1000, 8192])}
    if f["seg"] == 1 and rng.random() < 0.8:
        f["seg"] = 300
    if f["chunk"] == 1:
        f["chunk"] = 50
    if r < whole:
        f["what"] = "ok"
        return f
    f["what"] = rng.choice(["reset", "reset", "eof", "eof", "eof", "timeout-read", "crash", "crash", "ki", "status", "redirect", "nothing", "reset-request"])
    f["frac"] = rng.choice([0, 0.0001, 0.2, 0.5, 0.9, 0.999, 1, rng.random()])
    if f["what"] == "status":
        f["code"] = rng.choice([404, 403, 500, 502, 503, 410, 429])
        f["n"] = rng.choice([0, 1, 500])
    if f["what"] == "redirect":
        f["code"] = rng.choice([301, 302, 303, 307, 308])
    return f


def gen(rng, tier):
    names = rng.sample(NAMES, rng.randint(1, 3))
    files = []
    for n in names:
        files.append({"url": rng.choice(["http", "https"]) + "://data.example" + rng.choice(["/", "/d/", "/d/e/"]) + n.replace(" ", "%20"),
                      "size": rng.choice([0, 1, 100, 8191, 8192, 8193, 16384, 20000, rng.randint(1, 40000), rng.choice([20000, 20000, 300000, 2**20, 1100000])]), "seed": rng.getrandbits(30),
                      "chunked": rng.random() < 0.15,
                      "fates": [gen_fate(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]})
    ops = []
    for _ in range(rng.randint(1, 6 if tier == "quick" else 12)):
        r = rng.random()
        k = "get" if r < 0.5 else "url" if r < 0.7 else "publish" if r < 0.8 else "pair"
        o = {"op": k, "file": rng.randrange(len(files))}
        if k == "url":
            o["to"] = rng.choice(["data", "data", "other"])
        if k == "pair":
            o["file2"] = rng.choice([o["file"], rng.randrange(len(files))])
        if k == "publish":
            o["size"] = rng.choice([0, 10, 8192, rng.randint(1, 30000), rng.randint(1, 30000), rng.choice([8192, 300000])])
            o["seed"] = rng.getrandbits(30)
        elif rng.random() < 0.5:
            o["faults"] = [F.gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops.append(o)
    return {"params": {"files": files, "bufsize": rng.choice([16, 1024, 8192]),
                       "connects": [rng.choice(["refused", "timeout", "dns", None, None]) for _ in range(rng.choice([0, 0, 0, 2, 5]))]},
            "ops": ops, "sched": gen_sched(rng, none=0.5)}


def run(plan, ctx):
    P = plan["params"]
    if not P["files"]:
        return
    cwd = os.getcwd()
    err, out = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()

    def root(sim):
        with F.FS(sim, P["bufsize"]) as fs, H.Server(sim, fs) as srv:
            os.chdir(fs.root)
            try:
                story(plan, ctx, sim, fs, srv)
            finally:
                os.chdir(cwd)
            ctx.event("ops", fs.total, len(srv.requests))

    try:
        ctx.run_sim(root, max_steps=3000000)
    finally:
        sys.stderr, sys.stdout = err, out
        import tqdm

        tqdm.tqdm._instances.clear()
    ctx.nontrivial = bool(ctx.faults)


def story(plan, ctx, sim, fs, srv):
    from scripts import data_download_util as D

    P = plan["params"]
    files = P["files"]
    path = [f["url"].split("example", 1)[1] for f in files]
    srv.connects = list(P["connects"])
    srv.replies = {p: [dict(x) for x in f["fates"]] for p, f in zip(path, files)}
    for p, f in zip(path, files):
        srv.sites[p] = [body(f["seed"], f["size"])]
        if f["chunked"]:
            srv.chunked.add(p)
    proc = F.Process(sim, fs)
    have = {}  # final path -> bytes promised to be there
    folder = D.DATA_FOLDER

    def target(i, to):
        return os.path.join(folder if to == "data" else "other", files[i]["url"].split("/")[-1])

    where_of = {}
    for i in range(len(files)):
        for to in ("data", "other"):
            where_of[target(i, to)] = i
    os.mkdir("other")

    def content(t):
        if not os.path.lexists(t):
            return None
        with F.real_open(t, "rb") as f:
            return f.read()

    def look(touched, where):
        """Every final path holds what it should."""
        for t in where_of:
            if t in touched:
                continue
            ctx.check(content(t) == have.get(t), "another data file was changed", f"{t}; {where}")

    def judge(st, e, i, t, mine, bad, where, skip):
        """mine: the bodies the server sent for this address during the attempt"""
        got = content(t)
        if st == "ok":
            if skip:
                ctx.check(got == have[t], "complete data file was changed", where)
                ctx.probe("kept")
            else:
                ctx.check(got is not None, "download returned without a file", where)
                ctx.check(got in mine, "data file is not what the server sent", f"{len(got)} bytes for {[len(m) for m in mine]}; {where}")
                have[t] = got
                ctx.probe("downloaded")
        else:
            if st == "error":
                ctx.check(bad, "download fails without a fault", f"{e!r}; {where}")
            ctx.check(got == have.get(t) or got in mine, "incomplete download is accepted as a data file" if t not in have else "complete data file was damaged",
                      f"{'absent' if got is None else len(got)} for {[len(m) for m in mine]}; {where}")
            if got is not None:
                have[t] = got
            ctx.probe(st)

    rounds = list(plan["ops"]) + [{"op": "get", "file": i, "last": True} for i in range(len(files))]
    for n, o in enumerate(rounds):
        i = o["file"]
        if i >= len(files):
            continue
        if o.get("last"):
            srv.connects, srv.replies = [], {}
        if o["op"] == "publish":
            srv.sites[path[i]].append(body(o["seed"], o["size"]))
            continue
        where = f"op {n} {o['op']} {files[i]['url']} {o.get('faults', '')}"
        if o["op"] == "pair":
            j = o["file2"]
            if j >= len(files):
                continue
            pair(plan, ctx, sim, fs, srv, D, o, [(k, target(k, "data"), files[k]["url"], path[k]) for k in (i, j)], have, judge, where)
            look({target(i, "data"), target(j, "data")}, where)
            proc.restart()
            continue
        t = target(i, "data" if o["op"] == "get" else o["to"])
        node = fs.proc()
        srv.served[node], before, bad0 = [], len(srv.requests), srv.bad
        if o["op"] == "get":
            fn = lambda: D.download_data(files[i]["url"])  # noqa
        else:
            if not os.path.isdir(os.path.dirname(t)):
                os.mkdir(os.path.dirname(t))
            fn = lambda: D.download_url(files[i]["url"], t)  # noqa
        skip = o["op"] == "get" and t in have
        st, e = proc.call(fn, o.get("faults", ()))
        where += f" -> {st} {e!r}"
        mine = [b for p, b in srv.served.get(node, ()) if p == path[i]]
        if skip:
            ctx.check(len(srv.requests) == before, "complete data file is fetched again", where)
        judge(st, e, i, t, mine, proc.fired or srv.bad > bad0, where, skip)
        look({t}, where)
        ctx.event(n, st, content(t) is not None)
        if st == "error" and isinstance(e, KeyboardInterrupt):
            proc.restart()
    for i in range(len(files)):
        ctx.check(content(target(i, "data")) is not None, "file missing although nothing fails any more", files[i]["url"])
    ctx.probe("all complete")


def pair(plan, ctx, sim, fs, srv, D, o, two, have, judge, where):
    """Two processes download files at the same time."""
    out = {}
    skips = [t in have for _, t, _, _ in two]
    bad0 = srv.bad
    nodes, tasks = [], []

    def mine(path):
        return [b for n in nodes for q, b in srv.served[n] if q == path]

    def proc(k, t, url, path):
        try:
            D.download_data(url)
            out[k] = ("ok", None)
            with F.real_open(t, "rb") as f:
                got = f.read()
            ctx.check(got in mine(path) + [have.get(t)], "data file is not what the server sent", f"{len(got)} bytes when process {k} returned; {where}")
        except ProcessCrash:
            out[k] = ("crash", None)
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            out[k] = ("error", e)

    fs.arm([f for f in o.get("faults", ()) if "n" in f])
    for k, (_, t, url, p) in enumerate(two):
        nodes.append(sim.new_node(f"d{k}.{len(sim.tasks)}"))
        srv.served[nodes[k]] = []
    for k, (_, t, url, p) in enumerate(two):
        tasks.append(sim.spawn(proc, k, t, url, p, name=f"d{k}", node=nodes[k]))
    sim.injections = [Injection(f["line"], F.Crash, tasks=lambda x: x is tasks[0], name="crash") for f in o.get("faults", ()) if "line" in f]
    for t in tasks:
        sim.join(t)
    bad = bool(fs.fired) or srv.bad > bad0 or any(x.fired for x in sim.injections)
    sim.injections = []
    fs.arm(())
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    for k, (i, t, url, p) in enumerate(two):
        st, e = out[k]
        judge(st, e, i, t, mine(p), bad, f"{where} [{t}] -> {st} {e!r}", skips[k])
    ctx.probe("same file at the same time" if two[0][0] == two[1][0] else "at the same time")


def simplify(plan):
    P = plan["params"]
    for i in range(len(P["files"])):
        if len(P["files"]) > 1:
            q = copy.deepcopy(plan)
            del q["params"]["files"][i]
            for o in q["ops"]:
                for k in ("file", "file2"):
                    if o.get(k, -1) > i:
                        o[k] -= 1
                    elif o.get(k, -1) == i:
                        o[k] = 99
            q["ops"] = [o for o in q["ops"] if o["file"] != 99 and o.get("file2") != 99]
            yield q
        f = P["files"][i]
        for j in range(len(f["fates"])):
            q = copy.deepcopy(plan)
            del q["params"]["files"][i]["fates"][j]
            yield q
        if f["chunked"]:
            q = copy.deepcopy(plan)
            q["params"]["files"][i]["chunked"] = False
            yield q
        for s in (1, 100, 20000):
            if f["size"] > s:
                q = copy.deepcopy(plan)
                q["params"]["files"][i]["size"] = s
                yield q
    if P["connects"]:
        q = copy.deepcopy(plan)
        q["params"]["connects"] = []
        yield q
