"""Shared by the drivers of the learners: problems, certificates, recording models."""
import numpy as np

import pv
from pv import Gen, build, exact, fx, ints, px, py, rec, scale

FX = 65536.
K = 4096


class Problem(object):
    def __init__(self, m, xs, ys, CN, CD, method):
        self.m, self.xs, self.ys, self.CN, self.CD, self.method = m, xs, ys, CN, CD, method
        self.C = CN / float(CD)
        self.n = len(xs)

    def model(self, method="own", record=True):
        base = build(self.m, self.method if method == "own" else method)
        return recording(base, self) if record else base

    def data(self, latent=False):
        X = [px(self.m, x) for x in self.xs]
        Y = [py(self.m, x, y) for x, y in zip(self.xs, self.ys)]
        self.keys = {key(x): i for i, x in enumerate(X)}
        if self.m["kind"] in ("multiclass", "binary", "multilabel"):
            X, Y = np.array(X), pv.stack_y(self.m, Y)
        return X, Y

    def header(self, **kw):
        d = dict(m=self.m, xs=self.xs, ys=self.ys, CN=self.CN, CD=self.CD, stops=False, keep=False,
                 script=False)
        d.update(kw)
        return d


def key(x):
    if isinstance(x, (tuple, list)):
        return "|".join(key(a) for a in x)
    return repr(np.asarray(x, dtype=float).tolist())


LEARN_KINDS = ["multiclass", "multiclass", "rescale", "binary", "multilabel", "chain", "graph",
               "edgefeat", "grid", "loopy"]


def problem(g, kind=None, n=None, maxlab=27, realizable=None, CNs=((1, 4), (1, 2), (1, 1), (2, 1)),
            lo=-2, hi=2, cw=None):
    r = g.r
    kind = kind or r.choice(LEARN_KINDS)
    n = n or r.randint(2, 4)
    kw = {}
    method = "max-product"
    if cw is False:
        kw["cw"] = []
    if kind in ("multiclass", "rescale"):
        m = g.model("multiclass", F=r.randint(1, 3), S=r.randint(2, 3), rescale=kind == "rescale", **kw)
        if kind == "rescale" and not m["cwgiven"]:
            m = g.model("multiclass", F=2, S=3, rescale=True, D=2, cw=[1, 2, 5])
        method = None
    elif kind == "binary":
        m = g.model("binary", F=r.randint(1, 3), D=1)
        method = None
    elif kind == "multilabel":
        L = r.randint(2, 3)
        m = g.model("multilabel", L=L, edges=g.forest(L), D=1)
    elif kind in ("graph", "loopy"):
        m = g.model("graph", S=2 if kind == "loopy" else r.randint(2, 3), F=r.randint(1, 2), **kw)
        if kind == "loopy":
            method = ("ad3", {"branch_and_bound": True})
    elif kind == "chain":
        m = g.model("chain", S=r.randint(2, 3), F=r.randint(1, 2), **kw)
    elif kind == "edgefeat":
        m = g.model("edgefeat", S=2, F=r.randint(1, 2), FE=r.randint(1, 2), sym=[], anti=[], **kw)
        if r.random() < .4:
            m = g.model("edgefeat", S=2, F=1, FE=2, sym=[0], anti=[1], **kw)
    elif kind == "grid":
        m = g.model("grid", S=2, F=r.randint(1, 2), nb=4, D=1)
    else:
        m = g.model(kind, **kw)
    if kind in ("multiclass", "rescale"):
        n = max(n, m["S"])
    xs, seen = [], set()
    while len(xs) < n:
        if m["kind"] == "grid":
            x = g.instance(m, shape=r.choice([[1, 2], [1, 3], [3, 1], [2, 1]]), lo=lo, hi=hi)
        elif kind == "loopy":
            x = g.instance(m, n=3, lo=lo, hi=hi)
            x["edges"] = [[0, 1], [1, 2], [2, 0]]
        else:
            x = g.instance(m, forest=True, maxlab=maxlab, lo=lo, hi=hi)
        k = key(px(m, x))
        if k not in seen:
            seen.add(k)
            xs.append(x)
    if realizable is None:
        realizable = r.random() < .4
    while True:
        ys = [g.labeling(m, x) for x in xs]
        # every state occurs (the learners check that), or there are too few places for them
        if m["kind"] in ("binary", "multilabel") or len(set(v for y in ys for v in y)) == m["S"]:
            break
        if sum(len(y) for y in ys) < m["S"] or r.random() < .02:
            return problem(g, kind, n, maxlab, realizable, CNs, lo, hi, cw)
    CN, CD = r.choice(list(CNs))
    P = Problem(m, xs, ys, CN, CD, method)
    P.kind = kind
    return P


# ---------------------------------------------------------------- quadratic programs
def qp_dual(D, L, groups, C):
    """multipliers a >= 0, sum over a group <= C, maximizing a.L - |a.D|^2/2"""
    import cvxopt
    import cvxopt.solvers as S
    D, L = np.asarray(D, float), np.asarray(L, float)
    k = len(L)
    if k == 0:
        return np.zeros(0)
    old = dict(S.options)
    S.options.clear()
    S.options.update(show_progress=False, abstol=1e-9, reltol=1e-9, feastol=1e-9, maxiters=200)
    try:
        P = cvxopt.matrix(D.dot(D.T) + 1e-10 * np.eye(k))
        G = np.vstack([-np.eye(k)] + [np.array([[1. if g == q else 0. for g in groups]]) for q in sorted(set(groups))])
        h = np.hstack([np.zeros(k), C * np.ones(len(set(groups)))])
        a = np.ravel(S.qp(P, cvxopt.matrix(-L), cvxopt.matrix(G), cvxopt.matrix(h))["x"])
    finally:
        S.options.clear()
        S.options.update(old)
    a = np.maximum(a, 0)
    for q in set(groups):
        idx = [i for i, g in enumerate(groups) if g == q]
        s = a[idx].sum()
        if s > C:
            a[idx] *= C / s
    return a


def ffl(a):
    """multipliers in fixed point, rounded down (stays feasible)"""
    return [int(np.floor(v * FX)) for v in a]


def certificate(P):
    """weights and multipliers of the optimum over all labelings"""
    import itertools
    base = build(P.m, P.method)
    X, Y = P.data()
    g = Gen(0)
    D, L, who, labs = [], [], [], []
    for i, (x, xi, yi) in enumerate(zip(P.xs, X, Y)):
        if P.m["rescale"]:
            gt = base.joint_feature(xi, yi, yi)
        else:
            gt = base.joint_feature(xi, yi)
        for y in itertools.product(*g.dom(P.m, x)):
            yy = py(P.m, x, list(y))
            jf = base.joint_feature(xi, yy, yi) if P.m["rescale"] else base.joint_feature(xi, yy)
            D.append(gt - jf)
            L.append(float(base.loss(yi, yy)))
            who.append(i)
            labs.append(list(y))
    a = qp_dual(D, L, who, P.C)
    w = a.dot(np.array(D))
    al = [[] for _ in P.xs]
    for v, i, y in zip(ffl(a), who, labs):
        if v > 0:
            al[i].append({"y": y, "a": v})
    return {"al": al, "w": fx(w)}


# ---------------------------------------------------------------- recording models
def recording(model, P):
    """an instance of a subclass that logs every loss-augmented / plain / latent inference"""
    base = type(model)

    import threading
    depth = threading.local()

    class Recording(base):
        @property
        def _depth(self):
            return getattr(depth, "n", 0)

        @_depth.setter
        def _depth(self, v):
            depth.n = v

        def _log_call(self, what, x, y, w, res):
            self.log.append((what, P.keys.get(key(x), -1), y, np.array(w, dtype=float), res,
                             getattr(self, "inference_method", None)))

        def loss_augmented_inference(self, x, y, w, *a, **k):
            self._depth += 1
            try:
                w0 = np.array(w, dtype=float)
                res = base.loss_augmented_inference(self, x, y, w, *a, **k)
            finally:
                self._depth -= 1
            if not self._depth:
                self._log_call("aug", x, y, w0, res)
            return res

        def batch_loss_augmented_inference(self, X, Y, w, *a, **k):
            self._depth += 1
            try:
                w0 = np.array(w, dtype=float)
                res = base.batch_loss_augmented_inference(self, X, Y, w, *a, **k)
            finally:
                self._depth -= 1
            if not self._depth:
                for x, y, r in zip(X, Y, res):
                    self._log_call("aug", x, y, w0, r)
            return res

        def inference(self, x, w, *a, **k):
            self._depth += 1
            try:
                w0 = np.array(w, dtype=float)
                res = base.inference(self, x, w, *a, **k)
            finally:
                self._depth -= 1
            if not self._depth:
                self._log_call("inf", x, None, w0, res)
            return res

        if hasattr(base, "batch_inference"):
            def batch_inference(self, X, w, *a, **k):
                self._depth += 1
                try:
                    w0 = np.array(w, dtype=float)
                    res = base.batch_inference(self, X, w, *a, **k)
                finally:
                    self._depth -= 1
                if not self._depth:
                    for x, r in zip(X, res):
                        self._log_call("inf", x, None, w0, r)
                return res

        if hasattr(base, "latent"):
            def latent(self, x, y, w, *a, **k):
                self._depth += 1
                try:
                    w0 = np.array(w, dtype=float)
                    res = base.latent(self, x, y, w, *a, **k)
                finally:
                    self._depth -= 1
                if not self._depth:
                    self._log_call("lat", x, y, w0, res)
                return res

    Recording.__name__ = base.__name__
    Recording.__qualname__ = base.__qualname__
    model.__class__ = Recording
    model.log = []
    return model


def scripted(P, r):
    """a model whose loss-augmented answers are made up: labelings and half-half marginals of
    two (often opposite) labelings, which may agree on the nodes and differ on the edges"""
    m = P.m
    base = P.model(record=False)

    class Scripted(type(base)):
        def loss_augmented_inference(self, x, y, w, *a, **k):
            i = P.keys[key(x)]
            n, E = P.xs[i]["n"], P.xs[i]["edges"]
            y1 = [r.randrange(2) for _ in range(n)]
            y2 = [1 - a for a in y1] if r.random() < .8 else [r.randrange(2) for _ in range(n)]
            if r.random() < .2:
                return np.array(y1)
            mu, nu = np.zeros((n, m["S"])), np.zeros((len(E), m["S"], m["S"]))
            for z in (y1, y2):
                for v in range(n):
                    mu[v, z[v]] += .5
                for e, (a, b) in enumerate(E):
                    nu[e, z[a], z[b]] += .5
            return mu, nu.reshape(len(E), m["S"] ** 2)

        def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
            return [self.loss_augmented_inference(x, y, w) for x, y in zip(X, Y)]

    base.__class__ = Scripted
    return recording(base, P)


def answer(m, y):
    """a recorded loss-augmented answer"""
    if isinstance(y, tuple):
        mu, nu = y
        return {"kind": "m", "mu": exactK(mu), "nu": exactK(np.asarray(nu).reshape(len(nu), -1)) if len(nu) else []}
    return {"kind": "y", "y": ints(y)}


def exactK(a):
    return [[int(round(float(v) * K)) for v in row] for row in np.asarray(a)]
