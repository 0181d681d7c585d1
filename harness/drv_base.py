"""C26: reference tools: the plain SVM, the downhill simplex learner, exhaustive inference, the
primal objective, packing of symmetric matrices"""
import contextlib
import io

import numpy as np

import learn
import pv
from learn import FX, certificate, ffl, problem
from pv import Gen, call, fx, ints, px, py, rec, scale


def svm_dual(D, C):
    """multipliers 0 <= a <= C with sum a y = 0"""
    import cvxopt
    import cvxopt.solvers as S
    X = np.array([d["x"] for d in D], float)
    y = np.array([d["y"] for d in D], float)
    n = len(y)
    old = dict(S.options)
    S.options.clear()
    S.options.update(show_progress=False, abstol=1e-9, reltol=1e-9, feastol=1e-9, maxiters=200)
    try:
        Z = X * y[:, None]
        a = np.ravel(S.qp(cvxopt.matrix(Z.dot(Z.T) + 1e-10 * np.eye(n)), cvxopt.matrix(-np.ones(n)),
                          cvxopt.matrix(np.vstack([-np.eye(n), np.eye(n)])),
                          cvxopt.matrix(np.hstack([np.zeros(n), C * np.ones(n)])),
                          cvxopt.matrix(y.reshape(1, n)), cvxopt.matrix(0.))["x"])
    finally:
        S.options.clear()
        S.options.update(old)
    return np.clip(a, 0, C)


def svm(g, i):
    r = g.r
    from pystruct.learners.svm import SVM
    n, F = r.randint(2, 10), r.randint(1, 3)
    hi = r.choice([1, 3, 5])
    while True:
        D = [{"x": g.ints(F, -hi, hi), "y": r.choice([-1, 1])} for _ in range(n)]
        if len(set(d["y"] for d in D)) == 2:
            break
    if r.random() < .3:
        for d in D:                                  # separable
            d["y"] = 1 if d["x"][0] + d["x"][-1] > 0 else -1
        D[0]["y"], D[1]["y"] = 1, -1
    CN, CD = r.choice([(1, 10), (1, 4), (1, 1), (4, 1)])
    rec().trace("svm-%d" % i, mod="TraceBase", hasprob=False)
    X = np.array([d["x"] for d in D], float)
    y = np.array([d["y"] for d in D], float if r.random() < .7 else int)
    with call("fit", what2="svm"):
        with contextlib.redirect_stdout(io.StringIO()):
            s = SVM(C=CN / float(CD)).fit(X, y)
        xs = [g.ints(F, -6, 6) for _ in range(6)] + [d["x"] for d in D]
        dec = s.decision_function(np.array(xs, float))
        rec().ev("svm", D=D, CN=CN, CD=CD, w=fx(s.w), b=fx(s.b), al=ffl(svm_dual(D, CN / float(CD))), xs=xs,
                 dec=fx(dec), pred=ints(s.predict(np.array(xs, float))))


def simplex(g, i):
    from pystruct.learners import PrimalDSStructuredSVM
    while True:
        P = problem(g, kind=g.r.choice(["binary", "binary", "multiclass", "multilabel", "chain", "graph"]))
        if pv.size_jf(P.m) <= (6 if i % 5 == 0 else 2):
            break
    rec().trace("simplex-%s-%d" % (P.kind, i), mod="TraceBase", hasprob=True, prob=P.header(**certificate(P)))
    rec().ev("begin")
    X, Y = P.data()
    with call("fit", what2="simplex"):
        with contextlib.redirect_stdout(io.StringIO()):
            # the mean slack and the squared norm over 2 C
            lrn = PrimalDSStructuredSVM(P.model(), C=P.C * P.n).fit(X, Y)
        rec().ev("simplex", w=fx(lrn.w))


def tools(g, i):
    from pystruct import utils as U
    from pystruct.utils.inference import exhaustive_inference, exhaustive_loss_augmented_inference
    P = problem(g, kind=g.r.choice(["graph", "chain", "edgefeat", "grid", "multilabel", "multiclass", "binary", "rescale"]))
    rec().trace("tools-%s-%d" % (P.kind, i), mod="TraceBase", hasprob=True, prob=P.header(**certificate(P)))
    rec().ev("begin")
    X, Y = P.data()
    model = P.model()
    m = P.m
    for _ in range(2):
        w = np.array(g.weights(m, -3, 3), float)
        if P.kind in ("graph", "chain", "edgefeat", "grid", "multilabel"):
            for k in range(P.n):
                with call("exhaustive"):
                    if P.kind != "multilabel":
                        y = exhaustive_inference(model, X[k], w)
                        rec().ev("exh", aug=False, i=k + 1, w=fx(w), y=ints(np.ravel(y)))
                    y = exhaustive_loss_augmented_inference(model, X[k], Y[k], w)
                    rec().ev("exh", aug=True, i=k + 1, w=fx(w), y=ints(np.ravel(y)))
        with call("objective"):
            o = U.objective_primal(model, w, X, Y, P.C, variant=g.r.choice(["n_slack", "one_slack"]))
            rec().ev("primal", w=fx(w), obj=fx(o))


def sym(g, i):
    from pystruct.utils import compress_sym, expand_sym
    n = g.r.randint(1, 5)
    rec().trace("sym-%d" % i, mod="TraceBase", hasprob=False)
    M = [[g.r.randint(-5, 5) for _ in range(n)] for _ in range(n)]
    make = g.r.random() < .5
    if not make:
        M = [[M[max(a, b)][min(a, b)] for b in range(n)] for a in range(n)]
    with call("pack"):
        c = compress_sym(np.array(M, float), make_symmetric=make)
        rec().ev("sym", M=M, make=make, low=ints(c), back=[ints(q) for q in expand_sym(c)])


def c26():
    g = Gen(pv.SEED * 1000 + 26)
    for i in range(scale(120, 1500)):
        svm(g, i)
    for i in range(scale(60, 600)):
        simplex(g, i)
    for i in range(scale(60, 600)):
        tools(g, i)
    for i in range(scale(40, 300)):
        sym(g, i)
