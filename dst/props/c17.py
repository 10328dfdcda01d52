"""Sketch requests of every kind, fitting and not, by concurrent callers that
share maps, tensors and live sketches, with crashes in between: which maps are
used, what is refused, and that a refused request leaves no trace."""
import numpy as np

from dst import model as M
from dst.harness import gen_sched
from dst.sim import Injection, ProcessCrash, Violation

ID = "C17"
METHODS = ("stream", "orth", "hmt")
SHAPES = ("permuted", "longer", "shorter", "one", "extra", "missing", "extra one", "regrouped")
COND = 1e6


def feasible(shape, rank):
    out, a = [], 1
    for n, r, rest in zip(shape, rank, np.cumprod(shape[::-1])[::-1][1:]):
        a = min(r, a * n, int(rest))
        out.append(int(a))
    return out


def gen(rng, tier):
    while True:
        shape = M.gen_shape(rng, maxsize=160, dmax=5)
        d = len(shape)
        if int(np.prod(shape)) > 1:
            break
    small = feasible(shape, M.gen_rank(rng, d, 1, 3))
    over = rng.choice([1, 1, 2, 3])
    big = [r + (over if rng.random() < 0.5 else rng.randint(1, 3)) for r in small]
    cl, cr = rng.choice(M.DRMS), rng.choice(M.DRMS)
    if rng.random() < 0.5:
        cr = cl
    P = {"shape": shape, "small": small, "big": big, "cpu": rng.choice([1, 2, 3, 8]),
         "maps": {s: {z: M.gen_drm(rng, c, shape, r, s == "right") for z, r in (("small", small), ("big", big))}
                  for s, c in (("left", cl), ("right", cr))}}
    kinds = [k for k in M.KINDS if k in M.SUPPORT[cl] and k in M.SUPPORT[cr]]
    P["tensors"] = [tensor(rng, shape, kinds) for _ in range(rng.randint(1, 3))]
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            ops.append(gen_call(rng, P, cl, cr) if r < 0.4 else {"op": "update", "t": rng.randrange(len(P["tensors"])), "sub": rng.random() < 0.3}
                       if r < 0.6 else gen_poison(rng, P))
        threads.append([{"op": "start", "big": rng.choice(["left", "right"]), "t": rng.randrange(len(P["tensors"]))}] + ops)
    faults = [{"task": rng.randrange(len(threads)), "k": rng.choice([rng.randint(1, 300), rng.randint(1, 3000)])}
              for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"params": P, "threads": threads, "faults": faults, "sched": gen_sched(rng)}


def tensor(rng, shape, kinds):
    def one(k):
        t = M.gen_tensor(rng, shape, k)
        t.pop("how", None)
        if k == "sparse":
            t["nnz"] = max(t["nnz"], 1)
        return t

    if rng.random() < 0.25:
        return {"kind": "sum", "shape": list(shape), "parts": [one(rng.choice(kinds)) for _ in range(rng.randint(1, 3))]}
    return one(rng.choice(kinds))


def kinds_of(t):
    return set().union(*map(kinds_of, t["parts"])) if t["kind"] == "sum" else {t["kind"]}


def gen_call(rng, P, cl, cr):
    for _ in range(200):
        t = rng.randrange(len(P["tensors"]))
        op = {"op": "call", "method": rng.choice(METHODS), "t": t, "seed": rng.getrandbits(31), "big": rng.choice(["left", "right"]),
              "left": rng.choice(["given", "given", None] + list(M.DRMS)), "right": rng.choice(["given", "given", None] + list(M.DRMS)),
              "int": rng.random() < 0.2, "ignored": rng.choice([None, None, None] + list(M.DRMS))}
        if op["method"] == "hmt":
            op["left"] = None
        el, er = effective(op, cl, cr)
        ks = kinds_of(P["tensors"][t])
        if all(ks <= set(M.SUPPORT[e]) for e in (el, er) if e):
            return op
    return {"op": "update", "t": 0, "sub": False}


def effective(op, cl, cr):
    """The families the request asks for."""
    lt = op["left"] if op["left"] in M.DRMS else None
    rt = op["right"] if op["right"] in M.DRMS else None
    if op["method"] == "hmt":
        return None, cr if op["right"] == "given" else rt or "TT"
    return (cl if op["left"] == "given" else lt or rt or "TT",
            cr if op["right"] == "given" else rt or lt or "TT")


def gen_poison(rng, P):
    return {"op": "poison", "kind": rng.choice(["shape", "shape", "shape", "shape", "rank", "rank", "rank", "order", "order", "length", "format", "misc", "misc"]),
            "method": rng.choice(METHODS), "big": rng.choice(["left", "right"]), "side": rng.choice(["left", "right"]),
            "how": rng.choice(SHAPES), "via": rng.choice(["sketch", "sketch", "update", "apply", "update sum", "sketch sum", "last summand"]),
            "explicit": rng.choice(["both", "left", "right"]), "fkind": rng.choice(M.KINDS),
            "n": rng.getrandbits(20), "seed": rng.getrandbits(31)}


def other_shape(shape, how, n):
    """A different shape; None if there is none of this kind."""
    s, d = list(shape), len(shape)
    i = n % d
    if how == "permuted":
        s = s[1:] + s[:1] if n % 2 else s[::-1]
    elif how == "longer":
        s[i] += 1 + n % 3
    elif how == "shorter":
        s[i] -= 1
    elif how == "one":
        s[i] = 1
    elif how == "extra":
        s.insert(n % (d + 1), 2)
    elif how == "extra one":
        s.insert(n % (d + 1), 1)
    elif how == "missing":
        del s[i]
    elif how == "regrouped" and d >= 3:
        i = n % (d - 1)
        s[i: i + 2] = [s[i] * s[i + 1]]
    if s == list(shape) or min(s) < 1 or len(s) < 2:
        return None
    return s


def ref_orth(X, L, R):
    """Orthogonal (or, without L, HMT) sketch of a dense tensor with the given
    maps; also how well-conditioned that is."""
    d, worst, cores = X.ndim, 1.0, []
    C = X.reshape(X.shape[0], -1)
    for mu in range(d - 1):
        r = R[mu].reshape(R[mu].shape[0], -1)
        W = C @ r.T
        if L is not None:
            l = L[mu].reshape(L[mu].shape[0], -1)
            om = l @ X.reshape(l.shape[1], -1) @ r.T
            s = np.linalg.svd(om, compute_uv=False)
            if s[-1] == 0:
                return None, np.inf
            worst = max(worst, s[0] / s[-1] * np.linalg.norm(l, 2) * np.linalg.norm(r, 2) * np.linalg.norm(X) / s[0])
            W = W @ np.linalg.pinv(om)
        if W.shape[0] < W.shape[1]:
            return None, np.inf
        s = np.linalg.svd(W, compute_uv=False)
        if s[-1] == 0:
            return None, np.inf
        worst = max(worst, s[0] / s[-1])
        Q = np.linalg.qr(W)[0]
        cores.append(Q)
        C = (Q.T @ C).reshape(Q.shape[1] * X.shape[mu + 1], -1)
    out = C.reshape(-1, X.shape[-1])
    for mu in range(d - 2, -1, -1):
        Q = cores[mu]
        out = (Q @ out.reshape(Q.shape[1], -1)).reshape(-1, int(np.prod(X.shape[mu:]))) if mu else Q @ out.reshape(Q.shape[1], -1)
    return out.reshape(X.shape), worst


def run(plan, ctx):
    from tt_sketch import sketch as K
    from tt_sketch import sketch_dispatch as D
    from tt_sketch import tensor as T
    from tt_sketch import tt_gmres as G

    P = plan["params"]
    shape = tuple(P["shape"])
    ranks = {z: tuple(P[z]) for z in ("small", "big")}
    cls = {s: P["maps"][s]["small"]["cls"] for s in ("left", "right")}
    FN = {"stream": K.stream_sketch, "orth": K.orthogonal_sketch, "hmt": K.hmt_sketch}

    def values(m):
        return M.maps(m, shape)

    def sizes(method, big):
        """Which of the two rank profiles each side gets."""
        if method == "orth":
            big = "right"
        return {"left": "big" if big == "left" else "small",
                "right": "small" if method == "hmt" or big == "left" else "big"}

    def root(sim):
        maps = {s: {z: M.build_drm(P["maps"][s][z]) for z in ("small", "big")} for s in ("left", "right")}
        built = [M.build(t) for t in P["tensors"]]
        xs, dense = [b[0] for b in built], [b[1] for b in built]
        before = {s: {z: values(maps[s][z]) for z in maps[s]} for s in maps}
        snaps = [(o, M.snapshot(o)) for o in xs + [maps[s][z] for s in maps for z in maps[s]]]

        def same_map(a, b):
            return a is b or type(a) is type(b) and tuple(a.rank) == tuple(b.rank) and all(
                x.shape == y.shape and np.array_equal(x, y) for x, y in zip(values(a), values(b)))

        def given(side, z):
            return maps[side][z]

        def request(x, op, left, right, seed, ret, rl=None, rr=None):
            """left, right: ("map", m) | ("type", name) | None"""
            z = sizes(op["method"], op["big"])
            rl, rr = rl or ranks[z["left"]], rr or ranks[z["right"]]
            kw = {}
            for side, w in (("left", left), ("right", right)):
                pre = "" if op["method"] == "hmt" else side + "_"
                if w is not None and w[0] == "map":
                    kw[pre + "drm"] = w[1]
                elif w is not None:
                    kw[pre + "drm_type"] = M.drm_class(w[1])
            if op["method"] == "hmt":
                return K.hmt_sketch(x, rr, seed=seed, return_drm=ret, **kw)
            return FN[op["method"]](x, rl, rr, seed=seed, return_drm=ret, **kw)

        def dense_of(y):
            return np.array(y.to_numpy())

        def judge(op, y, l, r, X, what):
            """The result is what the maps l and r give."""
            L = values(l) if l is not None else None
            R = values(r)
            ctx.check(tuple(y.shape) == shape, "result has the wrong shape", what)
            if op["method"] == "stream":
                ctx.check(same_map(y.left_drm, l) and same_map(y.right_drm, r), "sketch does not hold the maps it returned", what)
                M.check_comps(ctx, y, *M.contract(L, R, X), kind="result is not the one of the maps it returned", detail=what)
                return
            ref, cond = ref_orth(X, L, R)
            if cond > COND:
                ctx.probe("ill-conditioned")
                return
            ctx.close(dense_of(y), ref, "result is not the one of the maps it returned", f"condition {cond:.1e}; {what}",
                      scale=float(np.linalg.norm(X)), tol=1e-13 * cond + 1e-10)
            ctx.probe("compared " + op["method"])

        def call(op, who):
            X, x = dense[op["t"]], xs[op["t"]]
            z = sizes(op["method"], op["big"])
            arg = {}
            for side in ("left", "right"):
                w = op[side]
                arg[side] = None if w is None else ("map", given(side, z[side])) if w == "given" else ("type", w)
            what = f"{op['method']} left {op['left']} right {op['right']} of {P['tensors'][op['t']]['kind']} {list(shape)} ranks {ranks}; {who}"
            req = op
            rl = rr = None
            if op["int"] and "given" not in (op["left"], op["right"]):
                a, b = max(ranks["small"]), max(ranks["small"]) + 1
                rl, rr = (b, a) if z["left"] == "big" else (a, b) if z["right"] == "big" else (None, a)
            out = request(x, req, arg["left"], arg["right"], op["seed"], True, rl, rr)
            y, l, r = (out[0], None, out[1]) if op["method"] == "hmt" else out
            eff = dict(zip(("left", "right"), effective(op, cls["left"], cls["right"])))
            for side, m in (("left", l), ("right", r)):
                if op["method"] == "hmt" and side == "left":
                    continue
                ctx.check(m.transpose == (side == "right") and tuple(m.shape) == shape, "returned map is of the wrong side or shape", what)
                if op[side] == "given":
                    ctx.check(same_map(m, given(side, z[side])), "a given map was replaced", f"{side}; {what}")
                else:
                    ctx.check(type(m) is M.drm_class(eff[side]), "map is not of the requested family", f"{side}: {type(m).__name__}; {what}")
                    want = ranks[z[side]] if rr is None else ({"left": rl, "right": rr}[side],) * (len(shape) - 1)
                    rk = tuple(m.rank[::-1] if m.transpose else m.rank)
                    ctx.check(len(rk) == len(want) and all(1 <= a <= b for a, b in zip(rk, want)), "map has a higher rank than requested", f"{side}: {rk} for {want}; {what}")
                    if z[side] == "big":
                        ctx.check(rk == tuple(want), "oversampled map does not have the requested rank", f"{side}: {rk} for {want}; {what}")
            judge(op, y, l, r, X, what)
            # the same request with the maps it used; any other seed
            rk = lambda m: None if m is None else tuple(m.rank[::-1] if m.transpose else m.rank)
            if op["method"] != "hmt" and not (all(a < b for a, b in zip(rk(l), rk(r))) or op["method"] == "stream" and all(a > b for a, b in zip(rk(l), rk(r)))):
                ctx.probe("trimmed ranks out of order")
            else:
                o2 = request(x, op, l and ("map", l), ("map", r), (op["seed"] + 1) % 2**31, True, rk(l), rk(r))
                y2, l2, r2 = (o2[0], None, o2[1]) if op["method"] == "hmt" else o2
                ctx.check((l is None or same_map(l2, l)) and same_map(r2, r), "a given map was replaced", "returned maps passed again; " + what)
                if op["method"] == "stream":
                    M.same_comps(ctx, y2, y, "passing the returned maps again gives another result", what)
                else:
                    judge(op, y2, l, r, X, "returned maps passed again; " + what)
                # a requested family next to a given map is of no account
                if op.get("ignored") and op["method"] == "stream":
                    y4 = K.stream_sketch(x, rk(l), rk(r), left_drm=l, right_drm=r, left_drm_type=M.drm_class(op["ignored"]), seed=op["seed"])
                    M.same_comps(ctx, y4, y, "a family named next to a given map changes the result", what)
            y3 = request(x, op, arg["left"], arg["right"], op["seed"], False, rl, rr)
            if op["method"] == "stream":
                M.same_comps(ctx, y3, y, "result depends on whether the maps are returned", what)
            else:
                ctx.check(isinstance(y3, T.TensorTrain), "result is not a tensor train", what)
                judge(op, y3, l, r, X, "maps not returned; " + what)
            ctx.probe(f"call {op['method']}")

        def refuse(fn, what, kinds=(ValueError,)):
            try:
                r = fn()
            except ProcessCrash:
                raise
            except kinds:
                ctx.checks += 1
                return True
            except Violation:
                raise
            except Exception as e:
                ctx.check(False, "unfitting request fails in another way than by refusal", f"{type(e).__name__}: {e}; {what}")
            ctx.check(False, "a request that does not fit is accepted", f"gave {type(r).__name__}; {what}")

        def bad_tensor(op, sh):
            k = P["tensors"][op["n"] % len(P["tensors"])]
            ks = sorted(kinds_of(k))
            k = ks[op["n"] % len(ks)]
            n = int(np.prod(sh))
            spec = {"kind": k, "shape": list(sh), "seed": op["seed"], "nnz": 1 + op["n"] % n,
                    "rank": 2 if k == "cp" else [1] * len(sh) if k == "tucker" else [1 + op["n"] % 2] * (len(sh) - 1)}
            return M.build(spec)[0], k

        def poison(op, live, who):
            z = sizes(op["method"], op["big"])
            ml, mr = given("left", z["left"]), given("right", z["right"])
            rl, rr = ranks[z["left"]], ranks[z["right"]]
            meth = op["method"]
            k = op["kind"]
            d = len(shape)
            x = xs[op["n"] % len(xs)]
            what = f"{k} {meth}; {who}"
            if k == "shape":
                sh = other_shape(shape, op["how"], op["n"])
                if sh is None:
                    return
                b, kind = bad_tensor(op, sh)
                what = f"{kind} tensor of shape {sh} for maps of shape {list(shape)} via {op['via']} {meth}; {who}"
                if op["via"] in ("sketch sum", "update sum"):
                    b = T.TensorSum([b])
                elif op["via"] == "last summand":
                    # one summand of another shape among fitting ones
                    if len(sh) != d or not isinstance(x, T.TensorSum):
                        g = [x, b] if len(sh) == d else [b]
                    else:
                        g = list(x.tensors) + [b]
                    b = T.TensorSum(g)
                if op["via"] == "apply" or op["via"] == "update" and live is None:
                    m = ml if op["side"] == "left" and meth != "hmt" else mr
                    fn = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt", "cp": "sketch_cp", "tucker": "sketch_tucker"}[kind]
                    if isinstance(b, T.TensorSum):
                        return
                    refuse(lambda: list(getattr(m, fn)(b)), what)
                elif op["via"].startswith("update"):
                    refuse(lambda: live + b, what)
                elif meth == "hmt":
                    if len(sh) == d:
                        refuse(lambda: K.hmt_sketch(b, rr, drm=mr), what)
                else:
                    # one side given is enough for the request not to fit
                    kw = {"left_drm": ml, "right_drm": mr}
                    if len(sh) == d and op["explicit"] != "both":
                        del kw["right_drm" if op["explicit"] == "left" else "left_drm"]
                        e = kw.get("left_drm") or kw.get("right_drm")
                        kw[("right" if op["explicit"] == "left" else "left") + "_drm_type"] = type(e)
                    refuse(lambda: FN[meth](b, rl, rr, seed=op["seed"], **kw), what)
                ctx.probe("refused shape " + op["via"])
            elif k == "rank":
                i, up = op["n"] % (d - 1), 1 + op["n"] % 2
                if meth == "hmt":
                    q = list(rr)
                    q[i] = q[i] + up if op["seed"] % 2 or q[i] == 1 else q[i] - 1
                    refuse(lambda: K.hmt_sketch(x, tuple(q), drm=mr), f"rank {q} for a map of rank {rr}; {what}")
                    if rr != rr[::-1]:
                        refuse(lambda: K.hmt_sketch(x, rr[::-1], drm=mr), f"reversed; {what}")
                    ctx.probe("refused rank hmt")
                    return
                # stay consistently ordered
                q = {"left": list(rl), "right": list(rr)}
                s = op["side"]
                bigger = z[s] == "big"
                if bigger:
                    q[s][i] += up
                elif q[s][i] > 1:
                    q[s][i] -= 1
                else:
                    q[s] = [a + 1 for a in q[s]]
                    o = "right" if s == "left" else "left"
                    q[o] = [a + 1 for a in q[o]]
                    mo = {"left": ml, "right": mr}[s]
                    refuse(lambda: FN[meth](x, tuple(q["left"]), tuple(q["right"]), seed=op["seed"], **{s + "_drm": mo, o + "_drm_type": type(mo)}),
                           f"ranks {q} for a {s} map of rank {ranks[z[s]]}; {what}")
                    ctx.probe("refused rank")
                    return
                kw = {"left_drm": ml, "right_drm": mr}
                if op["explicit"] != "both":
                    o = "right" if s == "left" else "left"
                    kw[o + "_drm_type"] = type(kw.pop(o + "_drm"))
                refuse(lambda: FN[meth](x, tuple(q["left"]), tuple(q["right"]), seed=op["seed"], **kw),
                       f"ranks {q} for maps of ranks {rl}, {rr} given {sorted(kw)}; {what}")
                ctx.probe("refused rank")
            elif k == "order":
                if meth == "hmt":
                    meth = "stream"
                a, b = list(ranks["small"]), list(ranks["big"])
                how = op["n"] % 4
                cname = cls[op["side"]]
                if how == 0:
                    l, r = a, a
                elif how == 1 and d >= 3:  # one edge out of order
                    l, r = list(a), list(b)
                    i = op["seed"] % (d - 1)
                    l[i], r[i] = b[i], a[i]
                elif how == 2 and d >= 3:  # one edge equal
                    l, r = list(a), list(b)
                    r[op["seed"] % (d - 1)] = l[op["seed"] % (d - 1)]
                    if op["big"] == "left" and meth == "stream":
                        l, r = r, l
                elif meth == "orth":
                    l, r = b, a
                else:
                    l, r = b, b
                refuse(lambda: FN[meth](x, tuple(l), tuple(r), seed=op["seed"], left_drm_type=M.drm_class(cname)), f"ranks {l} and {r}; {what}")
                ctx.probe("refused order")
            elif k == "length":
                q = {"left": list(rl), "right": list(rr)}
                for s in q:
                    q[s] = q[s] + q[s][-1:] if op["n"] % 2 or d < 3 else q[s][:-1]
                which = op["seed"] % 3
                t = dict(left_drm_type=M.drm_class(cls["left"]), right_drm_type=M.drm_class(cls["right"]))
                if meth == "hmt":
                    refuse(lambda: K.hmt_sketch(x, tuple(q["right"]), seed=3, drm_type=M.drm_class(cls["right"])), what)
                else:
                    # of both sides, or of one (then they cannot be compared)
                    l, r = (q["left"], q["right"]) if which == 0 else (q["left"], rr) if which == 1 else (rl, q["right"])
                    refuse(lambda: FN[meth](x, tuple(l), tuple(r), seed=3, **t), f"ranks {l} and {r}; {what}")
                refuse(lambda: M.drm_class(cls[op["side"]])(tuple(q["left"]), shape, transpose=op["side"] == "right", seed=op["seed"]), what)
                ctx.probe("refused length")
            elif k == "format":
                c = cls[op["side"]]
                bad = [f for f in M.KINDS if f not in M.SUPPORT[c]]
                anyexc = (Exception,)
                if live is not None:
                    refuse(lambda: live + live, "a sketch added to a sketch; " + what, anyexc)
                if bad:
                    f = bad[op["n"] % len(bad)]
                    b = M.build({"kind": f, "shape": list(shape), "seed": op["seed"], "nnz": 1,
                                 "rank": 2 if f == "cp" else [1] * d if f == "tucker" else [1] * (d - 1)})[0]
                    if op["n"] % 3 == 0:
                        b = T.TensorSum([x, b] if not isinstance(x, T.TensorSum) else list(x.tensors) + [b])
                    what = f"{f} tensor with maps {c}; {what}"
                    if meth == "hmt":
                        if op["side"] == "right":
                            refuse(lambda: K.hmt_sketch(b, rr, drm=mr), what, anyexc)
                    else:
                        refuse(lambda: FN[meth](b, rl, rr, left_drm=ml, right_drm=mr), what, anyexc)
                    if live is not None and b is not None:
                        refuse(lambda: live + b, what, anyexc)
                    ctx.probe("refused format")
            else:
                n = op["n"] % 10
                if n == 0:
                    m = [D.SketchMethod.streaming, D.SketchMethod.orthogonal][op["seed"] % 2]
                    refuse(lambda: D.general_sketch(x, None, mr, method=m), "no left map; " + what)
                elif n == 1:
                    refuse(lambda: T.TensorTrain.random(shape, 2, seed=1, orthog=True, trim=False), what)
                elif n == 2:
                    refuse(lambda: T.TensorTrain.random(shape, 2, seed=1, norm_goal="norm-2"), what)
                elif n == 3:
                    refuse(lambda: G.TTLinearMapSum([]), what)
                elif n in (4, 5):
                    sh = other_shape(shape, op["how"], op["seed"])
                    if sh is not None:
                        a, b = G.MPO.eye(shape), G.MPO.eye(tuple(sh))
                        refuse(lambda: G.TTLinearMapSum([a, a, b]), f"{shape} and {sh}; {what}")
                        A = G.TTLinearMapSum([a])
                        t1 = T.TensorTrain.random(shape, 1, seed=1)
                        t2 = T.TensorTrain.random(tuple(sh), 1, seed=1)
                        refuse(lambda: G.tt_sum_gmres(A, t2, 2), f"right-hand side of shape {sh} for {shape}; {what}")
                        refuse(lambda: G.tt_sum_gmres(A, t1, 2, x0=t2), f"starting guess of shape {sh} for {shape}; {what}")
                elif n == 6:
                    R = np.random.RandomState(op["seed"])
                    s2 = [a + (i == op["seed"] % d) for i, a in enumerate(shape)]
                    B = G.MPO([R.standard_normal((1, p, q, 1)) for p, q in zip(shape, s2)])
                    for A in (G.TTLinearMapSum([B]),):
                        ok = T.TensorTrain.random(tuple(A.out_shape), 1, seed=1)
                        refuse(lambda: G.tt_sum_gmres(A, ok, 2), f"map from {A.in_shape} to {A.out_shape}; {what}")
                    C = G.MPO([R.standard_normal((1, q, p, 1)) for p, q in zip(shape, s2)])
                    refuse(lambda: G.TTLinearMapSum([B, C]), what)
                elif n == 7:
                    t1 = T.TensorTrain.random(shape, 1, seed=1)
                    refuse(lambda: G.round_tt_sum(T.TensorSum([t1, t1]), 1, method="rounded"), what)
                elif n == 8:
                    # more nonzeros per row than columns, or not as many numbers as maps
                    r, i = list(rr), op["seed"] % len(rr)
                    nz = [1 + (op["seed"] >> j) % a for j, a in enumerate(r)]
                    w = op["seed"] % 5
                    bad = nz[:i] + [r[i] + 1 + op["seed"] % 3] + nz[i + 1:] if w < 3 else nz + [1] if w == 3 or len(nz) == 1 else nz[:i] + nz[i + 1:]
                    refuse(lambda: M.drm_class("SS")(tuple(r), shape, transpose=op["side"] == "right", seed=op["seed"], num_non_zero_per_row=tuple(bad)),
                           f"{bad} nonzeros per row for ranks {r}; {what}")
                    ctx.probe("refused nonzeros")
                else:
                    if not {cls["left"], cls["right"]} <= {"SG", "DG"} and live is not None:
                        refuse(lambda: live.increase_rank(x, tuple(a + 1 for a in live.left_rank), tuple(a + 1 for a in live.right_rank)), what)
                    if live is not None:
                        refuse(lambda: live.C_cores("middle"), what)
                ctx.probe("refused misc")

        ends = {}

        def caller(k):
            th = plan["threads"][k]
            live = X = z = None
            pos = 0
            while pos < len(th):
                op = th[pos]
                who = f"caller {k} request {pos}"
                try:
                    if op["op"] == "start":
                        z = sizes("stream", op["big"])
                        live = K.stream_sketch(xs[op["t"]], ranks[z["left"]], ranks[z["right"]],
                                               left_drm=given("left", z["left"]), right_drm=given("right", z["right"]))
                        X = dense[op["t"]]
                    elif op["op"] == "update":
                        if live is None:
                            return
                        y = live - xs[op["t"]] if op["sub"] else live + xs[op["t"]]
                        live, X = y, X + (-1 if op["sub"] else 1) * dense[op["t"]]
                    elif op["op"] == "call":
                        call(op, who)
                    else:
                        snap = M.copy_comps(live) if live is not None else None
                        poison(op, live, who)
                        if live is not None:
                            M.comps_equal(ctx, live, snap, "a refused request changed a sketch", f"{op['kind']} {op['via']}; {who}")
                    pos += 1
                except ProcessCrash:
                    ctx.probe("interrupted")
            if live is not None:
                ends[k] = (live, X, z)

        tasks = [sim.spawn(caller, k, name=f"c{k}") for k in range(len(plan["threads"]))]
        for f in plan["faults"]:
            if f["task"] < len(tasks):
                t = tasks[f["task"]]
                sim.injections.append(Injection(f["k"], ProcessCrash, tasks=lambda y, t=t: y is t, name="interrupt"))
        sim.join(*tasks)
        sim.injections = []
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        scale = sum(np.abs(x) for x in dense) * 10
        for k, (live, X, z) in ends.items():
            M.check_comps(ctx, live, *M.contract(before["left"][z["left"]], before["right"][z["right"]], X, scale),
                          kind="live sketch is not the sketch of the accepted updates", detail=f"caller {k}")
        for o, s in snaps:
            r = M.unchanged(o, s)
            ctx.check(r is None, "a request changed a shared object", f"{type(o).__name__} {r}")
        for s in maps:
            for z in maps[s]:
                for a, b in zip(values(maps[s][z]), before[s][z]):
                    ctx.equal(a, b, "a request changed a shared map", f"{s} {z}")

    ctx.run_sim(root, cpu=P["cpu"], max_steps=6000000)
    ctx.fault("request that does not fit", sum(o["op"] == "poison" for th in plan["threads"] for o in th))
    ctx.nontrivial = True


def simplify(plan):
    import copy

    for i, th in enumerate(plan["threads"]):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            p["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in p["faults"] if f["task"] != i]
            yield p
