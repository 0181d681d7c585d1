"""C15: latent learners"""
import numpy as np

import pv
from drv_cp import jscale
from drv_step import latent_problem, latent_subgradient, sub_args
from learn import certificate, Problem
from pv import Gen, call, fx, ints, py, rec, scale


class Outer(object):
    """logger of the latent learner: what it and its base learner hold after a refit"""
    def __init__(self, model):
        self.model, self.pos, self.snaps = model, 0, []

    def __call__(self, lrn, iteration="?"):
        if iteration == "final":       # no refit
            return
        b = lrn.base_ssvm
        s = dict(it=iteration, w=np.array(b.w, float), calls=list(self.model.log[self.pos:]),
                 obj=(getattr(b, "primal_objective_curve_", None) or b.objective_curve_)[-1])
        self.pos = len(self.model.log)
        c = getattr(b, "constraints_", None)
        s["cons"] = [[[np.array(y), np.array(d, float), l] for y, d, l in q] for q in c] if c and isinstance(c[0], list) else None
        self.snaps.append(s)


def refits(P, snaps, base):
    for s in snaps:
        hs = [None] * P.n
        same = True
        for c in s["calls"]:
            if c[0] == "aug":
                h = ints(c[2])
                same = same and hs[c[1]] in (None, h)
                hs[c[1]] = h
        hs = [h if h is not None else [] for h in hs]
        cert = {"al": [[] for _ in hs], "w": []}
        if base != "sub" and all(hs):
            Q = Problem(P.m, P.xs, hs, P.CN, P.CD, P.method)
            cert = certificate(Q)
        cons = [[{"y": ints(y), "d": fx(np.asarray(d) * jscale(P.m)), "l": fx(l * P.m["D"])} for y, d, l in q]
                for q in s["cons"]] if base == "n" else []
        rec().ev("refit", hs=hs, same=same, w=fx(s["w"]), al=cert["al"], cw=cert["w"], cons=cons, obj=fx(s["obj"]))


def can_init(P):
    """k-means needs as many places of a label as it has states; hidden nodes need edges;
    the grid models want arrays"""
    m = P.m
    flat = [a for y in P.ys for a in y]
    if m["spl"] and any(0 < flat.count(l) < s for l, s in enumerate(m["spl"])):
        return False
    if m["kind"] in ("lnode", "eflnode"):
        hid = [x["n"] - x["nv"] for x in P.xs]
        return sum(hid) >= m["H"] and all(h and max(max(e) for e in x["edges"]) == x["n"] - 1 for h, x in zip(hid, P.xs))
    return m["kind"] == "lgraph" or len(set(map(str, (x["shape"] for x in P.xs)))) == 1


def latent_run(P, id_, base, latiter, auto, g, again=False, jobs=1, **kw):
    from pystruct import learners as L
    X, Y = P.data()
    auto = auto and can_init(P) and not again
    if auto and P.m["kind"] in pv.GRIDK:
        X, Y = np.array(X), np.array(Y)
    model = P.model()
    tol = kw.get("tol", -10 if base == "n" else .001)
    if base == "n":
        inner = L.NSlackSSVM(model, C=P.C, tol=tol, max_iter=100, **kw)
    elif base == "1":
        inner = L.OneSlackSSVM(model, C=P.C, tol=tol, max_iter=200, **kw)
    else:
        inner = L.SubgradientSSVM(model, C=P.C, max_iter=6, learning_rate=.1, **kw)
    inner.verbose = pv.loud(id_)
    log = Outer(model)
    lrn = L.LatentSSVM(inner, latent_iter=latiter, logger=log)
    hinit = None
    if not auto:
        hinit = []
        for x, y in zip(P.xs, P.ys):
            while True:
                h = g.labeling(P.m, x)
                if g.visible(P.m, x, h) == y:
                    break
            hinit.append(h)
    rec().trace(id_, mod="TraceLatent", prob=P.header(base=base, latiter=latiter, auto=auto, tol=max(0, fx(tol)),
                                                      hinit=hinit or []))
    with call("fit"):
        for rep in range(2 if again else 1):
            k = len(log.snaps)
            if auto:
                lrn.fit(X, Y)
                rec().cur["prob"]["hinit"] = [ints(h) for h in lrn.H_init_]
            else:
                lrn.fit(X, Y, H_init=[py(P.m, x, h) for x, h in zip(P.xs, hinit)])
            if rep == 0:
                rec().ev("init")
            refits(P, log.snaps[k:], base)
            preds, hs, val = lrn.predict(X), lrn.predict_latent(X), lrn.score(X, Y)
            rec().ev("end", w=fx(lrn.w), preds=[ints(y) for y in preds], hs=[ints(h) for h in hs], val=fx(val),
                     hinit=[ints(h) for h in lrn.H_init_])
            if again and rep == 0:
                rec().ev("restart")
        if max([np.abs(s["w"]).max() for s in log.snaps] + [0]) > 60:
            rec().drop()


def c15():
    g = Gen(pv.SEED * 1000 + 15)
    bases = ["n", "1", "n", "sub"]
    for i in range(scale(240, 1600)):
        P = latent_problem(g, g.r.randint(2, 4))
        b = bases[i % 4]
        kw = {}
        if b == "1" and g.r.random() < .5:
            kw["inference_cache"] = g.r.choice([1, 2, 10])
        if b == "n" and g.r.random() < .4:
            kw["batch_size"] = g.r.choice([1, 2, -1])
        latent_run(P, "latent-%s-%s-%d" % (b, P.kind, i), b, g.r.choice([1, 2, 3, 5, 8]), g.r.random() < .4, g,
                   again=i % 7 == 0, **kw)
    for i in range(scale(150, 900)):
        P = latent_problem(g, g.r.randint(2, 4))
        latent_subgradient(P, "latsub-%s-%d" % (P.kind, i), mode=g.r.choice([None, None, "warm"]),
                           mod="TraceStep", zero=i % 2 == 0, **sub_args(g, i))
