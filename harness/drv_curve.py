"""C21: scores and curves"""
import time

import numpy as np

import pv
from drv_life import halves, KINDS
from drv_step import latent_problem, threading_backend
from learn import problem
from pv import Gen, build, call, fx, ints, py, rec, scale

K = 65536.


class Snap(object):
    """logger: the weights after every pass, as numbered by the learner"""
    def __init__(self):
        self.w, self.its = [], []

    def __call__(self, lrn, it="?"):
        if it != "final":
            self.w.append(np.array(lrn.w, float))
            self.its.append(it)


def predictions(g, P, w, X, Y):
    """what weights w predict: visible labels, by a model of our own"""
    m = build(P.m, P.method)
    out = []
    for x, xs in zip(X, P.xs):
        y = m.inference(x, np.array(w, float))
        out.append(ints(m.label_from_latent(np.asarray(y))) if P.m["kind"] in pv.LATK else ints(y))
    return out


def visible(g, P, H=None):
    if P.m["kind"] in pv.LATK:
        return [list(y) for y in P.ys]
    return [list(y) for y in P.ys]


def state(lrn):
    return dict(obj=len(getattr(lrn, "objective_curve_", [])), prim=len(getattr(lrn, "primal_objective_curve_", [])),
                cached=len(getattr(lrn, "cached_constraint_", [])), times=len(getattr(lrn, "timestamps_", [])),
                loss=len(getattr(lrn, "loss_curve_", [])))


ZERO = dict(obj=0, prim=0, cached=0, times=0, loss=0)
FAMS = ["n", "n-batch", "1", "1-cache", "sub", "sub-batch", "sub-avg", "sub-mom", "latsub", "fwb", "fwb-ls", "fwc", "fwc-avg", "perc",
        "perc-batch", "perc-avg"]


def make(name, m, P, g, snap, every, jobs):
    from pystruct import learners as L
    r = g.r
    kw = dict(logger=snap, max_iter=r.choice([1, 2, 3, 5, 7]), n_jobs=jobs, verbose=r.choice([0, 0, 0, 1, 2, 5, 11]))
    if not name.startswith("perc"):
        kw.update(C=P.C, show_loss_every=every)
    chk = 1
    if name.startswith("n"):
        return L.NSlackSSVM(m, batch_size=2 if name == "n-batch" else 100, tol=r.choice([1e-3, -10]), **kw), "n", chk
    if name.startswith("1"):
        return L.OneSlackSSVM(m, inference_cache=2 if name == "1-cache" else 0, **kw), "1", chk
    if name == "latsub":
        return L.SubgradientLatentSSVM(m, learning_rate=.1, averaging=r.choice([None, "linear"]), **kw), "sub", chk
    if name.startswith("sub"):
        bs = -1 if name == "sub-batch" and jobs == 1 else None
        return L.SubgradientSSVM(m, averaging="squared" if name == "sub-avg" else None, batch_size=bs,
                                 momentum=.5 if name == "sub-mom" else 0., **kw), "sub", chk
    if name.startswith("fw"):
        kw["n_jobs"] = 1
        chk = r.choice([0, 1, 2, 3])
        return L.FrankWolfeSSVM(m, batch_mode=name.startswith("fwb"), check_dual_every=chk, line_search=name != "fwb-ls",
                                do_averaging=name == "fwc-avg", random_state=1, **kw), name[:3], chk
    return L.StructuredPerceptron(m, batch=name == "perc-batch", average=name == "perc-avg", **kw), "perc", chk


def fits(name, i, g):
    lat = name == "latsub"
    r = g.r
    P = latent_problem(g, 3) if lat else problem(g, kind=r.choice([k for k in KINDS if k != "rescale" or "perc" not in name]), n=3)
    every = r.choice([0, 1, 1, 2, 3])
    jobs = 2 if r.random() < .2 and not name.startswith("perc") else 1
    rec().trace("curve-%s-%s-%d" % (name, P.kind, i))
    with call("fit", 60):
        X, Y = P.data()
        m = P.model()
        snap = Snap()
        lrn, fam, chk = make(name, m, P, g, snap, every, jobs)
        if fam == "n" and jobs > 1:
            # passes are counted by the calls of inference
            lrn.n_jobs = jobs = 1
        t0 = time.time()
        for rnd in range(r.choice([1, 2, 3])):
            warm = rnd > 0 and fam in ("n", "1", "sub") and r.random() < .7
            before = state(lrn) if warm else dict(ZERO)
            w0 = np.array(lrn.w, float) if warm else np.zeros(pv.size_jf(P.m))
            snap.w, snap.its = [], []
            m.log[:] = []
            if not warm:
                t0 = time.time()
            kw = {}
            if warm:
                kw = {"constraints": lrn.constraints_} if fam == "n" else {"warm_start": True}
            elif lat:
                lrn.w = np.random.RandomState(i).normal(size=pv.size_jf(P.m))
            with threading_backend():
                lrn.fit(X, Y, **kw)
            calls = [c[0] for c in m.log]
            ws = [w0] + snap.w
            p = len(snap.w)
            if fam == "n":
                p = calls.count("aug") // P.n - 1
                if p > len(snap.w):
                    ws.append(np.array(lrn.w, float))
            elif fam == "perc":
                p = calls.count("inf") // P.n
            rec().ev("fact", name="logger-in-order", ok=snap.its == list(range(len(snap.its))))
            ys = visible(g, P)
            if fam == "perc":
                rec().ev("epochs", m=P.m, ys=ys, p=p, batch=name == "perc-batch", loss=fx(lrn.loss_curve_, K),
                         preds=[predictions(g, P, w, X, Y) for w in ws[:p]])
            else:
                ts = getattr(lrn, "timestamps_", [])
                rec().ev("fit", m=P.m, ys=ys, fam=fam, p=p, every=every, chk=chk, warm=warm, before=before,
                         lossbefore=before["loss"], loss=fx(getattr(lrn, "loss_curve_", []), K),
                         preds=[predictions(g, P, w, X, Y) if every else [] for w in ws] if every else [],
                         nobj=len(lrn.objective_curve_), nprim=len(getattr(lrn, "primal_objective_curve_", [])),
                         ncached=len(getattr(lrn, "cached_constraint_", [])), ntimes=len(ts),
                         times=[int(t * 1e6) for t in ts[1:]], wall=int((time.time() - t0) * 1e6) + 100)


# ------------------------------------------------------------------ scores
def scores(i, g):
    from pystruct import learners as L
    r = g.r
    kind = r.choice(["multiclass", "chain", "graph", "edgefeat", "binary", "multilabel", "grid", "lgraph", "lnode", "eflnode",
                     "lgrid", "ldgrid", "typed", "loopy", "rescale"])
    lat = kind in pv.LATK
    n = r.randint(1, 4)
    P = latent_problem(g, n + 1, kind) if lat else problem(g, kind, n=n, lo=-4, hi=4) if kind != "typed" else None
    rec().trace("score-%s-%d" % (kind, i))
    with call("score", 60):
        if kind == "typed":
            m0 = g.model("typed")
            xs = [g.instance(m0, forest=True, maxlab=81) for _ in range(n)]
            ys = [g.labeling(m0, x) for x in xs]
            X = [pv.px(m0, x) for x in xs]
            Y = [py(m0, x, y) for x, y in zip(xs, ys)]
            model, mm = build(m0, "ad3"), m0
        else:
            X, Y = P.data()
            model, mm, ys = P.model(record=False), P.m, P.ys
        w = pv.wvec(mm, g.weights(mm))
        jobs = r.choice([1, 1, 2])
        which = r.choice(["latent", "latsub"]) if lat else r.choice(["n", "1", "sub", "fw", "perc"])
        if which == "latent":
            base = r.choice([L.NSlackSSVM, L.OneSlackSSVM, L.SubgradientSSVM])(model, n_jobs=jobs, verbose=r.choice([0, 0, 0, 1, 2, 5, 11]))
            lrn = L.LatentSSVM(base)
            base.w = w
        else:
            cls = {"n": L.NSlackSSVM, "1": L.OneSlackSSVM, "sub": L.SubgradientSSVM, "fw": L.FrankWolfeSSVM,
                   "perc": L.StructuredPerceptron, "latsub": L.SubgradientLatentSSVM}[which]
            lrn = cls(model, n_jobs=jobs if which != "fw" else 1)
            lrn.w = w
        if jobs > 1 and kind in ("multiclass", "binary", "rescale", "multilabel"):
            X = list(X)
        with threading_backend():
            pred = lrn.predict(X)
            s = lrn.score(X, Y)
        rec().ev("score", m=mm, ys=[list(y) for y in ys], ps=[ints(p) for p in pred], val=fx(s, K))
        # one sample alone
        k = r.randrange(len(X))
        with threading_backend():
            s = lrn.score(X[k:k + 1], Y[k:k + 1])
        rec().ev("score", m=mm, ys=[list(ys[k])], ps=[ints(pred[k])], val=fx(s, K))


def refit_curves(i, g):
    """the curves of the learner inside a latent learner go on over the refits"""
    from pystruct import learners as L
    r = g.r
    P = latent_problem(g, 3)
    base = r.choice(["1", "sub", "n"])
    every = r.choice([1, 2])
    rec().trace("refits-%s-%s-%d" % (base, P.kind, i))
    with call("fit", 60):
        X, Y = P.data()
        m = P.model()
        snap = Snap()
        kw = dict(C=P.C, show_loss_every=every, max_iter=4, logger=snap)
        inner = {"1": L.OneSlackSSVM, "n": L.NSlackSSVM, "sub": L.SubgradientSSVM}[base](m, **kw)
        H = []
        for x, y in zip(P.xs, P.ys):
            while True:
                h = g.labeling(P.m, x)
                if g.visible(P.m, x, h) == y:
                    break
            H.append(py(P.m, x, h))
        st = dict(before=dict(ZERO), w0=np.zeros(pv.size_jf(P.m)), n=0)
        t0 = time.time()

        def outer(lrn, it="?"):
            if it == "final":
                return
            ws = [st["w0"]] + snap.w
            p = len(snap.w)
            if base == "n":
                p = [c[0] for c in m.log].count("aug") // P.n - 1
                if p > len(snap.w):
                    ws.append(np.array(inner.w, float))
            b = st["before"]
            ts = inner.timestamps_
            rec().ev("fit", m=P.m, ys=[list(y) for y in P.ys], fam=base, p=p, every=every, chk=1, warm=st["n"] > 0, before=b,
                     lossbefore=b["loss"], loss=fx(getattr(inner, "loss_curve_", []), K),
                     preds=[predictions(g, P, w, X, Y) for w in ws],
                     nobj=len(inner.objective_curve_), nprim=len(getattr(inner, "primal_objective_curve_", [])),
                     ncached=len(getattr(inner, "cached_constraint_", [])), ntimes=len(ts),
                     times=[int(t * 1e6) for t in ts[1:]], wall=int((time.time() - t0) * 1e6) + 100)
            st["before"], st["n"] = state(inner), st["n"] + 1
            # one-slack starts a refit from zero weights
            st["w0"] = np.zeros(pv.size_jf(P.m)) if base == "1" else np.array(inner.w, float)
            snap.w, snap.its, m.log[:] = [], [], []
        lrn = L.LatentSSVM(inner, latent_iter=r.randint(1, 4), logger=outer)
        lrn.fit(X, Y, H_init=H)


def c21():
    g = Gen(pv.SEED * 1000 + 21)
    for i in range(scale(320, 2400)):
        fits(FAMS[i % len(FAMS)], i, g)
    for i in range(scale(220, 1500)):
        scores(i, g)
    for i in range(scale(40, 300)):
        refit_curves(i, g)
    rec().end()
