"""C12-C14: perceptron, subgradient, Frank-Wolfe"""
import numpy as np

import pv
from drv_cp import Snap
from learn import Problem, certificate, key, problem
from pv import Gen, call, fx, ints, mk, px, rec, scale


# ------------------------------------------------------------------ perceptron
def perc_calls(log, start=0):
    for c in log[start:]:
        if c[0] == "inf":
            rec().ev("pred", i=c[1] + 1, w=fx(c[3]), y=ints(c[4]))


def perceptron(P, id_, mode=None, **kw):
    from pystruct.learners import StructuredPerceptron
    avg = kw.get("average", False)
    rec().trace(id_, prob=P.header(alg="perc", latent=False, batch=bool(kw.get("batch", False)),
                de=kw.get("decay_exponent", 0), t0=kw.get("decay_t0", 10), maxit=kw["max_iter"],
                avg=-2 if avg is False else 0 if avg is True else avg))
    rec().ev("begin")
    X, Y = P.data()
    with call("fit"):
        model = P.model()
        lrn = StructuredPerceptron(model, verbose=pv.loud(id_), **kw)
        for rep in range(2 if mode else 1):
            k = len(model.log)
            lrn.fit(X, Y)
            perc_calls(model.log, k)
            rec().ev("end", w=fx(lrn.w), curve=[fx(v) for v in lrn.loss_curve_],
                     kept=type(lrn.average) is type(avg) and lrn.average == avg)
            if mode and rep == 0:
                rec().ev("restart", mode="fresh")


def c12():
    g = Gen(pv.SEED * 1000 + 12)
    kinds = ["multiclass", "multiclass", "binary", "multilabel", "chain", "graph", "edgefeat", "grid", "loopy"]
    avgs = [False, True, 0, 1, 2, 3, -1, -1]
    for i in range(scale(500, 4000)):
        P = problem(g, kind=kinds[i % len(kinds)], n=g.r.randint(1, 5))
        de = g.r.choice([0, 0, 0, 1, -1, -2, 2])
        perceptron(P, "perc-%s-%d" % (P.kind, i), batch=g.r.random() < .5, max_iter=g.r.randint(1, 8),
                   average=avgs[(i // 3) % len(avgs)], decay_exponent=de,
                   decay_t0=g.r.choice([1, 2, 3]) if de > 0 else g.r.choice([1, 2, 10]))
    # many samples, of which few are hard: losses that are small but not zero
    for i in range(scale(10, 80)):
        m = mk("multiclass", S=g.r.randint(2, 3), F=3, D=4, cw=g.r.choice([[1, 16, 8], [4, 4, 4]])) if i % 3 else \
            mk("binary", F=3, D=1)
        if m["kind"] == "multiclass":
            m = mk("multiclass", S=m["S"], F=3, D=4, cw=m["cw"][:m["S"]])
        easy = i % 2
        wt = [1, 0, 0, -1, 0, 0, 0, 1, 0][:pv.size_jf(m)] if easy else g.weights(m, -3, 3)
        sc = lambda x, a: (sum(u * v for u, v in zip(wt, x["feat"])) * a if m["kind"] == "binary" else
                           sum(u * v for u, v in zip(wt[a * 3:a * 3 + 3], x["feat"])))
        xs, seen = [], set()
        many = g.r.choice([60, 150, 250])
        while len(xs) < many:
            x = g.instance(m, lo=-20, hi=20)
            if easy:
                x["feat"] = [g.r.choice([-1, 1]) * g.r.randint(8, 20)] + g.ints(2, -9, 9)
            if key(px(m, x)) not in seen:
                seen.add(key(px(m, x)))
                xs.append(x)
        ys = [[max(g.dom(m, x)[0], key=lambda a: sc(x, a))] for x in xs]
        for _ in range(g.r.randint(1, 2) if easy else g.r.randint(0, 2)):
            q = g.r.randrange(len(xs))
            ys[q] = g.labeling(m, xs[q])
        if m["kind"] == "multiclass" and len(set(v for y in ys for v in y)) < m["S"]:
            continue
        P = Problem(m, xs, ys, 1, 1, None)
        P.kind = m["kind"]
        perceptron(P, "perc-many-%s-%d" % (P.kind, i), batch=g.r.random() < .3, max_iter=5,
                   average=False, decay_exponent=0, decay_t0=10)


# ------------------------------------------------------------------ subgradient
def sizes(n, b):
    """sizes of the mini-batches (sklearn's even slices)"""
    if b in (None, 1):
        return [1] * n
    if b == -1:
        return [n]
    k = -(-n // b)
    return [n // k + (1 if q < n % k else 0) for q in range(k)]


def sub_events(P, sz, snaps, n, latent, base):
    for k, s in enumerate(snaps):
        aug = [c for c in s["calls"] if c[0] == "aug"]
        final = s["it"] == "final"
        train = aug[:n] if not final or len(aug) >= 2 * n else []
        o = 0
        for b in sz if train else []:
            grp = train[o:o + b]
            o += b
            grp.sort(key=lambda c: c[1]) if base.get("threads") else None
            rec().ev("step", **{"is": [c[1] + 1 for c in grp]}, w=fx(grp[0][3]),
                     same=all(np.array_equal(c[3], grp[0][3]) for c in grp),
                     ys=[ints(c[4]) for c in grp], hs=[ints(c[2]) for c in grp])
        if not final:
            rec().ev("epoch", w=fx(s["w"]), obj=fx(s["objective_curve_"][-1]))


def threading_backend():
    import joblib
    return joblib.parallel_backend("threading")


def subgradient(P, id_, mode=None, threads=0, mod="", ctx=threading_backend, **kw):
    from pystruct.learners import SubgradientSSVM
    LN, LD = kw.pop("lr", (0, 1))
    MN, MD = kw.pop("mom", (0, 1))
    n = P.n
    sz = sizes(n, threads or kw.get("batch_size"))
    rec().trace(id_, mod=mod, prob=P.header(alg="sub", latent=False, auto=LN == 0, LN=LN, LD=LD, MN=MN, MD=MD,
                de=kw.get("decay_exponent", 1), t0=kw.get("decay_t0", 10), maxit=kw["max_iter"],
                avg=kw.get("averaging") or "none", sizes=sz, shuffle=bool(kw.get("shuffle")),
                brk=kw.get("break_on_no_constraints", True)))
    rec().ev("begin")
    X, Y = P.data()
    with call("fit"):
        model = P.model()
        snap = Snap(model)
        lrn = SubgradientSSVM(model, C=P.C, logger=snap, verbose=pv.loud(id_), momentum=MN / float(MD), n_jobs=threads or 1,
                              learning_rate="auto" if LN == 0 else LN / float(LD), **kw)
        with ctx():
            for rep in range(2 if mode else 1):
                k = len(snap.snaps)
                if rep:
                    lrn.fit(X, Y, warm_start=mode == "warm")
                else:
                    lrn.fit(X, Y)
                sub_events(P, sz, snap.snaps[k:], n, False, dict(threads=threads))
                rec().ev("end", w=fx(lrn.w), obj=fx(lrn.objective_curve_[-1]), nobj=len(lrn.objective_curve_))
                ts = lrn.timestamps_
                rec().ev("fact", name="timestamps", ok=len(ts) == len(lrn.objective_curve_) + 1
                         and all(a <= b for a, b in zip(ts[1:], ts[2:])) and all(v >= 0 for v in ts))
                if mode and rep == 0:
                    rec().ev("restart", mode=mode)
        if max([np.abs(c[3]).max() for c in model.log] + [0]) > 60 or \
                max([(c[3] ** 2).sum() for c in model.log] + [0]) > 10000:
            rec().drop()


def latent_problem(g, n, kind=None):
    """a small problem of a latent model with exact inference"""
    r = g.r
    kind = kind or r.choice(["lgraph", "lgraph", "lnode", "eflnode", "lgrid", "ldgrid"])
    while True:
        if kind in ("lgraph", "lgrid", "ldgrid"):
            m = pv.mk(kind, F=r.randint(1, 2), spl=r.choice([[2, 1], [1, 2], [2, 2], [1, 1]]), nb=4)
        else:
            m = pv.mk(kind, F=r.randint(1, 2), L=2, H=r.randint(1, 2), FE=1)
        xs, seen = [], set()
        while len(xs) < n:
            x = g.instance(m, forest=True, maxlab=64, n=r.randint(2, 3), lo=-2, hi=2,
                           shape=r.choice([[1, 2], [1, 3], [2, 1]]))
            k = key(px(m, x))
            if k not in seen:
                seen.add(k)
                xs.append(x)
        ys = [g.visible(m, x, g.labeling(m, x)) for x in xs]
        if len(set(v for y in ys for v in y)) == m["L"]:
            break
    CN, CD = r.choice([(1, 4), (1, 2), (1, 1)])
    P = Problem(m, xs, ys, CN, CD, "max-product")
    P.kind = kind
    return P


def latent_subgradient(P, id_, mode=None, threads=0, mod="", ctx=threading_backend, zero=False, **kw):
    from pystruct.learners import SubgradientLatentSSVM
    LN, LD = kw.pop("lr", (0, 1))
    MN, MD = kw.pop("mom", (0, 1))
    n = P.n
    sz = sizes(n, threads or None)
    rec().trace(id_, mod=mod, prob=P.header(alg="sub", latent=True, auto=LN == 0, LN=LN, LD=LD, MN=MN, MD=MD,
                de=kw.get("decay_exponent", 1), t0=kw.get("decay_t0", 10), maxit=kw["max_iter"],
                avg=kw.get("averaging") or "none", sizes=sz, shuffle=False,
                brk=kw.get("break_on_no_constraints", True)))
    rec().ev("begin")
    X, Y = P.data()
    with call("fit"):
        model = P.model()
        snap = Snap(model)
        lrn = SubgradientLatentSSVM(model, C=P.C, logger=snap, verbose=pv.loud(id_), momentum=MN / float(MD), n_jobs=threads or 1,
                                    learning_rate="auto" if LN == 0 else LN / float(LD), **kw)
        if zero:
            lrn.w = np.zeros(pv.size_jf(P.m))
        with ctx():
            for rep in range(2 if mode else 1):
                k = len(snap.snaps)
                if rep and mode == "warm":
                    lrn.fit(X, Y, warm_start=True)
                else:
                    lrn.fit(X, Y)
                sub_events(P, sz, snap.snaps[k:], n, True, dict(threads=threads))
                rec().ev("end", w=fx(lrn.w), obj=fx(lrn.objective_curve_[-1]), nobj=len(lrn.objective_curve_))
                ts = lrn.timestamps_
                rec().ev("fact", name="timestamps", ok=len(ts) == len(lrn.objective_curve_) + 1
                         and all(a <= b for a, b in zip(ts[1:], ts[2:])) and all(v >= 0 for v in ts))
                if mode and rep == 0:
                    rec().ev("restart", mode=mode)
        if max([np.abs(c[3]).max() for c in model.log] + [0]) > 60 or \
                max([(c[3] ** 2).sum() for c in model.log] + [0]) > 10000:
            rec().drop()
            return
        with ctx():
            preds, hs, val = lrn.predict(X), lrn.predict_latent(X), lrn.score(X, Y)
        rec().ev("score", preds=[ints(y) for y in preds], hs=[ints(h) for h in hs], w=fx(lrn.w), val=fx(val))


def sub_args(g, i):
    return dict(max_iter=g.r.randint(1, 6), decay_exponent=g.r.choice([0, 1, 1, 2]),
                decay_t0=g.r.choice([1, 2, 10]), averaging=g.r.choice([None, "linear", "squared"]),
                lr=g.r.choice([(0, 1), (0, 1), (1, 1), (1, 4), (2, 1)]), mom=g.r.choice([(0, 1), (0, 1), (1, 2), (1, 4)]))


def c13():
    g = Gen(pv.SEED * 1000 + 13)
    for i in range(scale(300, 3000)):
        P = problem(g, n=g.r.randint(1, 5))
        kw = sub_args(g, i)
        b = g.r.choice([None, None, None, 1, -1, 2, 3])
        if kw["averaging"] is None:
            kw.pop("averaging")
        np.random.seed(i)
        subgradient(P, "sub-%s-%d" % (P.kind, i), batch_size=b, shuffle=g.r.random() < .25,
                    break_on_no_constraints=g.r.random() < .8, **kw)
    for i in range(scale(48, 500)):
        P = problem(g, n=g.r.randint(2, 5))
        subgradient(P, "subpar-%s-%d" % (P.kind, i), threads=g.r.choice([2, 3]), **sub_args(g, i))
    for i in range(scale(48, 500)):
        P = problem(g, n=g.r.randint(1, 4))
        subgradient(P, "subwarm-%s-%d" % (P.kind, i), mode="warm", **sub_args(g, i))


# ------------------------------------------------------------------ Frank-Wolfe
class FW(object):
    """recovers the step sizes from the recorded weights"""
    def __init__(self, P, X, Y, kw):
        self.P, self.X, self.Y, self.kw = P, X, Y, kw
        self.base = pv.build(P.m, P.method)
        nb = 1 if kw.get("batch_mode") else P.n
        self.W = [np.zeros(pv.size_jf(P.m)) for _ in range(nb)]
        self.L = [0.] * nb
        self.k = 0

    def vertex(self, c):
        i, y = c[1], c[4]
        x, yt, m = self.X[i], self.Y[i], self.base
        if self.P.m["rescale"]:
            d = m.joint_feature(x, yt, yt) - m.joint_feature(x, y, yt)
        else:
            d = m.joint_feature(x, yt) - m.joint_feature(x, y)
        return self.P.C * d, self.P.C * m.loss(yt, y)

    def step(self, grp, wnext):
        w, n, C = grp[0][3], self.P.n, self.P.C
        vs = [self.vertex(c) for c in grp]
        v, l = sum(a[0] for a in vs), sum(a[1] for a in vs)
        b = 0 if len(self.W) == 1 and self.kw.get("batch_mode") else grp[0][1]
        d = v - self.W[b]
        if self.kw.get("line_search", True):
            gam = ((self.W[b] - v).dot(w) - (self.L[b] - l)) / (d.dot(d) + 1e-15)
            gam = max(0., min(1., gam))
        else:
            gam = 2. / (self.k + 2.) if self.kw.get("batch_mode") else 2. * n / (self.k + 2. * n)
        if wnext is not None and not np.allclose(w + gam * d, wnext, rtol=0, atol=1e-7) and d.dot(d) > 1e-9:
            gam = (wnext - w).dot(d) / d.dot(d)
        self.W[b] = self.W[b] + gam * d
        self.L[b] = self.L[b] + gam * (l - self.L[b])
        self.k += 1
        rec().ev("step", **{"is": [c[1] + 1 for c in grp]}, w=fx(w), ys=[ints(c[4]) for c in grp],
                 gam=int(round(gam * pv_fx)))


pv_fx = 65536.


def frank_wolfe(P, id_, mode=None, mod="", stops=False, **kw):
    from pystruct.learners import FrankWolfeSSVM
    n = P.n
    bm = bool(kw.get("batch_mode"))
    rec().trace(id_, mod=mod, prob=P.header(stops=stops, alg="fw", latent=False, batchmode=bm, ls=kw.get("line_search", True),
                avg=kw.get("do_averaging", True), every=kw.get("check_dual_every", 10),
                tol=fx(kw.get("tol", .001)), maxit=kw["max_iter"], sampling=kw.get("sample_method", "perm"),
                **certificate(P)))
    rec().ev("begin")
    X, Y = P.data()
    with call("fit"):
        model = P.model()
        snap = Snap(model)
        lrn = FrankWolfeSSVM(model, C=P.C, logger=snap, verbose=pv.loud(id_), **kw)
        for rep in range(2 if mode else 1):
            k0 = len(snap.snaps)
            lrn.fit(X, Y)
            fw = FW(P, X, Y, kw)
            snaps, seen = snap.snaps[k0:], 0
            for q, s in enumerate(snaps):
                if s["it"] == "final":
                    break
                aug = [c for c in s["calls"] if c[0] == "aug"]
                nxt = [c for c in snaps[q + 1]["calls"] if c[0] == "aug"]
                more = snaps[q + 1]["it"] != "final"
                grew = len(s["objective_curve_"]) > seen
                seen = len(s["objective_curve_"])
                if bm:
                    if grew:
                        rec().ev("check", w=fx(aug[0][3]), dual=fx(s["objective_curve_"][-1]),
                                 primal=fx(s["primal_objective_curve_"][-1]))
                    fw.step(aug[:n], s["w"])
                    continue
                for j in range(n):
                    wn = aug[j + 1][3] if j + 1 < n else nxt[0][3] if more else \
                        s["w"] if not kw.get("do_averaging", True) else None
                    fw.step([aug[j]], wn)
                if grew:
                    rec().ev("check", w=fx(s["w"]), dual=fx(s["objective_curve_"][-1]),
                             primal=fx(s["primal_objective_curve_"][-1]))
            rec().ev("end", w=fx(lrn.w), primal=fx(lrn.primal_objective_curve_[-1]),
                     lens=[len(lrn.objective_curve_), len(lrn.primal_objective_curve_)])
            ts = lrn.timestamps_
            rec().ev("fact", name="timestamps", ok=len(ts) == len(lrn.objective_curve_) + 1
                     and all(a <= b for a, b in zip(ts[1:], ts[2:])))
            if mode and rep == 0:
                rec().ev("restart", mode="fresh")


def c14():
    g = Gen(pv.SEED * 1000 + 14)
    for i in range(scale(220, 2200)):
        P = problem(g, n=g.r.randint(1, 4))
        frank_wolfe(P, "bcfw-%s-%d" % (P.kind, i), line_search=g.r.random() < .7,
                    do_averaging=g.r.random() < .5, check_dual_every=g.r.choice([1, 1, 2, 3, 10]),
                    sample_method=g.r.choice(["perm", "rnd", "seq"]), random_state=i,
                    tol=g.r.choice([.001, .01, .1, .5]), max_iter=g.r.randint(1, 12))
    for i in range(scale(90, 900)):
        P = problem(g, n=g.r.randint(1, 4))
        frank_wolfe(P, "fw-%s-%d" % (P.kind, i), batch_mode=True, line_search=g.r.random() < .6,
                    do_averaging=g.r.random() < .5, tol=g.r.choice([.001, .05, .3]), max_iter=g.r.randint(1, 15))
    for i in range(scale(12, 80)):
        P = problem(g, n=g.r.randint(1, 3))
        frank_wolfe(P, "bcfw-nocheck-%s-%d" % (P.kind, i), check_dual_every=0, max_iter=4)
    for i in range(scale(24, 200)):
        P = problem(g, n=g.r.randint(1, 3))
        frank_wolfe(P, "bcfw-refit-%s-%d" % (P.kind, i), mode="fresh", batch_mode=i % 2 == 1,
                    do_averaging=i % 3 > 0, check_dual_every=1, max_iter=4, random_state=1)
