"""C07: batch and parallel evaluation"""
import warnings

import numpy as np

import drv_step
import pv
from jobsched import schedule
from learn import LEARN_KINDS, problem, FX
from pv import Gen, build, call, exact, fx, ints, px, py, rec, scale, stack_y
from tlcrun import prints, tlc


def schedules():
    """every way to finish n jobs on W workers, as enumerated by TLC"""
    out = {}
    for _, n, w, picks in prints(tlc("ParMap", scale("ParMap", "ParMapBig")), "SCHED"):
        out.setdefault((n, w), []).append(picks)
    return out


def flat(y):
    if isinstance(y, tuple):
        return [flat(a) for a in y]
    return fx(np.asarray(y, dtype=float).ravel())


def same(a, b):
    """bit for bit"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def samples(g, m, n, loopy=False):
    xs, seen = [], set()
    while len(xs) < n:
        x = g.instance(m, forest=True, maxlab=81)
        if str(x) not in seen or m["kind"] in ("multiclass", "binary"):
            seen.add(str(x))
            xs.append(x)
    return xs


# ------------------------------------------------------------------ batch methods of the models
def batch_methods(g, kind, i):
    m = g.model(kind)
    meth = "unary" if kind in ("multiclass", "binary") else "ad3" if kind == "typed" else "max-product"
    exactness = "unique" if kind == "typed" else "always"
    if kind in pv.GRIDK:
        m = g.model(kind, nb=4)
    n = g.r.randint(1, 5)
    if kind in pv.GRIDK:
        xs = [g.instance(m, shape=g.r.choice([[1, 2], [1, 3], [2, 1], [1, 1]])) for _ in range(n)]
    else:
        xs = samples(g, m, n)
    ys = [g.labeling(m, x) for x in xs]
    w = g.weights(m)
    rec().trace("batch-%s-%d" % (kind, i))
    with call("batch"):
        mod = build(m, None if meth == "unary" else meth)
        W = pv.wvec(m, w)
        X = [px(m, x) for x in xs]
        Y = [py(m, x, y) for x, y in zip(xs, ys)]
        if kind in ("multiclass", "binary", "multilabel"):
            X, Y = np.array(X), stack_y(m, Y)
        pred = mod.batch_inference(X, W)
        rec().ev("eq", a=[len(pred)], b=[n], what="count")
        for x, p in zip(xs, pred):
            rec().ev("inf", m=m, x=x, w=w, y=ints(p), exact=exactness)
        aug = mod.batch_loss_augmented_inference(X, Y, W)
        rec().ev("eq", a=[len(aug)], b=[n], what="count")
        # weights and losses in the same unit
        for x, y, p in zip(xs, ys, aug):
            rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(p), exact=exactness)
        L = mod.batch_loss(Y, stack_y(m, list(pred)))
        rec().ev("bloss", m=m, xs=xs, ys=ys, yhs=[ints(p) for p in pred], vals=exact(list(L), m["D"]))
        if not m["rescale"]:
            jf = mod.batch_joint_feature(X, Y)
            rec().ev("bjf", m=m, xs=xs, ys=ys, jf=exact(jf, m["ps"]))


# ------------------------------------------------------------------ prediction and objective
class Fixed(object):
    """a learner with given weights"""
    def __init__(self, cls, model, w, **kw):
        self.l = cls(model, **kw)
        self.l.w = w


def predict_runs(g, scheds):
    from pystruct.learners import NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM
    cls = [NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM]
    kinds = ["graph", "chain", "multiclass", "binary", "multilabel", "edgefeat", "lnode", "typed"]
    i = 0
    for (n, W), all_ in sorted(scheds.items()):
        for picks in all_ * scale(1, 3):
            i += 1
            kind = kinds[i % len(kinds)]
            m = g.model(kind)
            xs = samples(g, m, n)
            w = g.weights(m)
            meth = {"typed": "ad3", "multiclass": None, "binary": None}.get(kind, "max-product")
            rec().trace("predict-%s-%d" % (kind, i))
            with call("predict"):
                X = [px(m, x) for x in xs]
                lrn = cls[i % 4](build(m, meth), n_jobs=W)
                lrn.w = pv.wvec(m, w)
                log = []
                with schedule(picks, log=log):
                    pred = lrn.predict(X)
                rec().ev("eq", a=[len(pred)], b=[n], what="count")
                for x, p in zip(xs, pred):
                    rec().ev("inf", m=m, x=x, w=w, y=ints(p), exact="unique" if kind == "typed" else "always")
                lrn.n_jobs = 1
                seq = lrn.predict(np.array(X) if kind in ("multiclass", "binary", "multilabel") else X)
                if kind not in ("multiclass", "binary"):
                    rec().ev("fact", what="same-as-sequential", ok=all(same(a, b) for a, b in zip(pred, seq)))


def constrained_predict(g, scheds):
    """every sample under its own constraints"""
    from pystruct.learners import OneSlackSSVM
    i = 0
    for (n, W), all_ in sorted(scheds.items()):
        for picks in all_[:scale(4, 40)]:
            i += 1
            m = g.model("edgefeat", S=2, F=2, FE=1, sym=[], anti=[])
            xs = [g.instance(m, n=3, forest=True) for _ in range(n)]
            w = g.weights(m)
            rec().trace("predictc-%d" % i)
            with call("predict"):
                X = [px(m, x) for x in xs]
                must = [g.r.randrange(3) for _ in xs]
                cons = [[("OR", [0, 1, 2], 1, None), ("XOR", [k, (k + 1) % 3], 1, None)] for k in must]
                lrn = OneSlackSSVM(build(m, ("ad3+", {"branch_and_bound": True})), n_jobs=W)
                lrn.w = pv.wvec(m, w)
                with schedule(picks):
                    pred = lrn.predict(X, cons)
                lrn.n_jobs = 1
                seq = lrn.predict(X, cons)
                ok = all(int(p[k]) + int(p[(k + 1) % 3]) == 1 for p, k in zip(pred, must))
                rec().ev("fact", what="own-constraints", ok=bool(ok and len(pred) == n))
                rec().ev("fact", what="same-as-sequential", ok=all(same(a, b) for a, b in zip(pred, seq)))


# ------------------------------------------------------------------ learners
def state(lrn):
    d = {"w": fx(lrn.w)}
    for a in ("objective_curve_", "primal_objective_curve_", "loss_curve_"):
        if hasattr(lrn, a):
            d[a] = [fx(v) for v in getattr(lrn, a)]
    if hasattr(lrn, "constraints_"):
        d["ncons"] = [len(c) for c in lrn.constraints_]
    return d


def exactly(a, b):
    ok = np.array_equal(a.w, b.w)
    for k in ("objective_curve_", "primal_objective_curve_", "loss_curve_"):
        ok = ok and hasattr(a, k) == hasattr(b, k) and (not hasattr(a, k) or getattr(a, k) == getattr(b, k))
    return bool(ok)


def learner_runs(g, scheds):
    """learners whose parallel computation is the sequential one, sample by sample"""
    from pystruct.learners import LatentSSVM, NSlackSSVM, OneSlackSSVM, StructuredPerceptron
    i = 0
    for (n, W), all_ in sorted(scheds.items()):
        if n < 2:
            continue
        k = scale(9, 60)
        for picks in (all_ if len(all_) <= k else g.r.sample(all_, k)):
            i += 1
            which = ["nslack", "oneslack", "perceptron", "latent"][i % 4]
            vec = {"oneslack": False}.get(which, None)
            kind = g.r.choice(["chain", "graph", "edgefeat", "multilabel", "grid"] + (["multiclass", "binary"] if vec is None else []))
            P = problem(g, kind=kind, n=n)
            rec().trace("learn-%s-%s-%d" % (which, P.kind, i))
            with call("fit"):
                X, Y = P.data()
                bs = g.r.choice([-1, 100, 1, 2])

                def make(n_jobs):
                    mod = build(P.m, P.method)
                    if which == "nslack":
                        return NSlackSSVM(mod, C=P.C, max_iter=8, n_jobs=n_jobs, batch_size=bs, tol=.001, show_loss_every=1)
                    if which == "oneslack":
                        return OneSlackSSVM(mod, C=P.C, max_iter=15, n_jobs=n_jobs, tol=.001, show_loss_every=2,
                                            inference_cache=3 if i % 8 > 3 else 0)
                    if which == "perceptron":
                        return StructuredPerceptron(mod, max_iter=5, batch=True, n_jobs=n_jobs)
                    return None
                if which == "latent":
                    L = problem(g, kind="chain", n=n)
                    mk_ = pv.mk("lgraph", F=2, spl=[1, 2])
                    xs = [g.instance(mk_, n=g.r.randint(2, 3), forest=True) for _ in range(n)]
                    hs = [g.labeling(mk_, x) for x in xs]
                    hs[0][0], hs[0][1] = 0, 1
                    ys = [g.visible(mk_, x, h) for x, h in zip(xs, hs)]
                    X = [px(mk_, x) for x in xs]
                    Y = [np.array(y) for y in ys]
                    H = [np.array(h) for h in hs]

                    def make(n_jobs):
                        base = (OneSlackSSVM if i % 8 > 3 else NSlackSSVM)(
                            build(mk_, "max-product"), C=1., max_iter=6, n_jobs=n_jobs, tol=.001)
                        return LatentSSVM(base, latent_iter=3)
                par, seq = make(W), make(1)
                log = []
                with schedule(picks, log=log):
                    par.fit(X, Y, H) if which == "latent" else par.fit(X, Y)
                seq.fit(X, Y, H) if which == "latent" else seq.fit(X, Y)
                a, b = (par.base_ssvm, seq.base_ssvm) if which == "latent" else (par, seq)
                rec().ev("fact", what="same-as-sequential", ok=exactly(a, b))
                rec().ev("fact", what="jobs-were-scheduled", ok=len(log) > 0)


def vector_runs(g, scheds):
    """one-slack learning of the vectorized models: the same optimum"""
    from pystruct.learners import OneSlackSSVM
    for i, ((n, W), all_) in enumerate(sorted(scheds.items()) * scale(1, 6)):
        if n < 2:
            continue
        P = problem(g, kind=g.r.choice(["multiclass", "binary", "rescale"]), n=n)
        rec().trace("vector-%s-%d" % (P.kind, i))
        with call("fit"):
            X, Y = P.data()
            r = []
            for nj in (W, 1):
                lrn = OneSlackSSVM(build(P.m, P.method), C=P.C, max_iter=60, n_jobs=nj, tol=.001)
                with schedule(g.r.choice(all_)):
                    lrn.fit(X, Y)
                r.append(lrn.primal_objective_curve_[-1])
            rec().ev("near", a=[fx(r[0])], b=[fx(r[1])], tol=int(.01 * FX) + 50)


def minibatch_runs(g, scheds):
    """(latent) subgradient: the jobs of a batch work on the same weights, the update is the
    mean over the batch; the result does not depend on the schedule"""
    i = 0
    for (n, W), all_ in sorted(scheds.items()):
        if n < 2:
            continue
        for picks in g.r.sample(all_, min(len(all_), scale(3, 20))):
            i += 1
            P = problem(g, n=n)
            drv_step.subgradient(P, "sub-%s-%d" % (P.kind, i), threads=W, mod="TraceStep",
                                 ctx=lambda: schedule(picks, isolate=False), **drv_step.sub_args(g, i))
            drv_step.latent_subgradient(drv_step.latent_problem(g, n), "slat-%d" % i, threads=W, mod="TraceStep",
                                        ctx=lambda: schedule(picks, isolate=False), **drv_step.sub_args(g, i))


def loky(g):
    """worker processes of joblib"""
    from pystruct.learners import NSlackSSVM
    for i in range(3):
        P = problem(g, kind="chain", n=4)
        rec().trace("loky-%d" % i)
        with call("fit", seconds=200):
            X, Y = P.data()
            a = NSlackSSVM(build(P.m, P.method), C=P.C, max_iter=4, n_jobs=3, tol=.001).fit(X, Y)
            b = NSlackSSVM(build(P.m, P.method), C=P.C, max_iter=4, n_jobs=1, tol=.001).fit(X, Y)
            rec().ev("fact", what="same-as-sequential", ok=exactly(a, b))


def c07():
    g = Gen(pv.SEED * 1000 + 7)
    warnings.simplefilter("ignore")
    s = schedules()
    for i in range(scale(6, 60)):
        for kind in pv.KINDS:
            batch_methods(g, kind, i)
    predict_runs(g, s)
    constrained_predict(g, s)
    learner_runs(g, s)
    vector_runs(g, s)
    minibatch_runs(g, s)
    if pv.THOROUGH:
        loky(g)
