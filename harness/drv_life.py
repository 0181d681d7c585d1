"""C16: the life of a learner"""
import copy
import pickle
from contextlib import contextmanager

import numpy as np

import pv
from drv_step import latent_problem
from learn import Problem, problem
from pv import Gen, call, fx, ints, py, rec, scale
from tlcrun import prints, tlc

KINDS = ["multiclass", "chain", "binary", "multilabel", "graph", "edgefeat", "rescale"]


def halves(g, kind=None, latent=False, n=3):
    """two data sets of one model"""
    for _ in range(1000):
        P = latent_problem(g, 2 * n) if latent else problem(g, kind or g.r.choice(KINDS), n=2 * n, lo=-4, hi=4)
        parts = []
        for k in (slice(0, n), slice(n, 2 * n)):
            Q = Problem(P.m, P.xs[k], P.ys[k], P.CN, P.CD, P.method)
            Q.kind = P.kind
            parts.append(Q)
        S = P.m["L"] if latent else P.m["S"]
        if P.m["kind"] in ("binary", "multilabel") or all(len(set(v for y in Q.ys for v in y)) == S for Q in parts):
            return P, parts
    raise RuntimeError("no data sets")


# ------------------------------------------------------------------ learners
# name -> (family, how many real iterations one of the specification stands for)
LIVES = {
    "sub": ("resume", 2), "sub-batch": ("resume", 2), "sub-auto": ("resume", 2), "sub-decay": ("resume", 2),
    "latsub": ("keep", 2), "n": ("opt", 1), "n-batch": ("opt", 1), "1": ("opt", 1), "1-cache": ("opt", 1),
    "fw-batch": ("fresh", 3), "fw-bc": ("fresh", 3), "fw-avg": ("fresh", 3), "perc": ("fresh", 3), "perc-avg": ("fresh", 3),
    "perc-batch": ("fresh", 3), "sub-avg": ("fresh", 3), "sub-mom": ("fresh", 3), "sub-sq": ("fresh", 3),
    "lat-n": ("fresh", 1), "lat-1": ("fresh", 1), "lat-1-cache": ("fresh", 1), "lat-sub": ("fresh", 1),
}


def make(name, model, C, it, show):
    from pystruct import learners as L
    kw = dict(C=C, max_iter=it, show_loss_every=show, verbose=pv.loud((name, it, show, C)))
    sub = dict(kw, break_on_no_constraints=False)
    cp = dict(kw, max_iter=300, tol=1e-6)
    if name == "sub":
        return L.SubgradientSSVM(model, learning_rate=.125, **sub)
    if name == "sub-batch":
        return L.SubgradientSSVM(model, learning_rate=.125, batch_size=-1, **sub)
    if name == "sub-auto":
        return L.SubgradientSSVM(model, **sub)
    if name == "sub-decay":
        return L.SubgradientSSVM(model, learning_rate=.25, decay_exponent=.5, decay_t0=3, **sub)
    if name == "sub-avg":
        return L.SubgradientSSVM(model, averaging="linear", **sub)
    if name == "sub-sq":
        return L.SubgradientSSVM(model, averaging="squared", learning_rate=.5, **kw)
    if name == "sub-mom":
        return L.SubgradientSSVM(model, momentum=.5, **sub)
    if name == "latsub":
        return L.SubgradientLatentSSVM(model, learning_rate=.125, **sub)
    if name == "n":
        return L.NSlackSSVM(model, **cp)
    if name == "n-batch":
        return L.NSlackSSVM(model, batch_size=1, inactive_window=0, **cp)
    if name == "1":
        return L.OneSlackSSVM(model, **cp)
    if name == "1-cache":
        return L.OneSlackSSVM(model, inference_cache=2, **cp)
    if name == "fw-batch":
        return L.FrankWolfeSSVM(model, batch_mode=True, **kw)
    if name == "fw-bc":
        return L.FrankWolfeSSVM(model, do_averaging=False, random_state=3, check_dual_every=1, **kw)
    if name == "fw-avg":
        return L.FrankWolfeSSVM(model, sample_method="seq", line_search=False, **kw)
    if name.startswith("perc"):
        return L.StructuredPerceptron(model, max_iter=it, average={"perc": False, "perc-avg": True, "perc-batch": 1}[name],
                                      batch=name == "perc-batch")
    cp["tol"] = 1e-4
    base = {"lat-n": L.NSlackSSVM, "lat-1": L.OneSlackSSVM, "lat-1-cache": L.OneSlackSSVM, "lat-sub": L.SubgradientSSVM}[name]
    if name == "lat-sub":
        cp = dict(C=C, max_iter=4, show_loss_every=show, learning_rate=.125)
    if name == "lat-1-cache":
        cp["inference_cache"] = 2
    return L.LatentSSVM(base(model, **cp), latent_iter=it)


def others(lrn, skip):
    """the parameters nothing in a history sets"""
    p = lrn.get_params(deep=False)
    out = [type(lrn).__name__]
    for k in sorted(p):
        if k in skip:
            continue
        v = p[k]
        if k == "model":
            v = "%s %s" % (type(v).__name__, v.__dict__.get("inference_method"))
        elif k == "base_ssvm":
            v = others(v, ("C",))
        out.append("%s=%r" % (k, v))
    return ";".join(out)


class Life(object):
    def __init__(self, name, P, parts, show, g):
        self.name, self.P, self.parts, self.g = name, P, parts, g
        self.family, self.mul = LIVES[name]
        self.lat = name.startswith("lat-")
        self.latent = name.startswith("lat")
        self.data = []
        for Q in parts:
            X, Y = Q.data()
            H = None
            if self.latent:
                H = []
                for x, y in zip(Q.xs, Q.ys):
                    while True:
                        h = g.labeling(Q.m, x)
                        if g.visible(Q.m, x, h) == y:
                            break
                    H.append(py(Q.m, x, h))
            self.data.append((X, Y, H))
        self.show = show
        self.new()

    def cval(self, c):
        return c * self.P.C

    def new(self):
        self.a = make(self.name, parts_model(self.P), self.cval(1), 2 * self.mul, self.show)
        self.b = None
        self.last = [0, 0]                    # which data a and b saw last

    # -------------------------------------------------------------- observing
    def obs(self, lrn):
        if lrn is None:
            return {}
        p = lrn.get_params()
        own = lrn.base_ssvm if self.lat else lrn
        if self.name.startswith("perc"):
            Cs = [0]                              # has no C
        elif self.lat:
            Cs = [lrn.C, own.C, p["base_ssvm__C"], own.get_params()["C"], lrn.base_ssvm.C]
        else:
            Cs = [lrn.C, p["C"]]
        it = p["latent_iter"] if self.lat else p["max_iter"]
        w = getattr(own, "w", None)
        d = dict(fitted=w is not None, w=[] if w is None else fx(w), pred=[], curve=[], loss=[],
                 C=[int(round(c / self.P.C)) if abs(c / self.P.C - round(c / self.P.C)) < 1e-9 else -1 for c in Cs],
                 it=it // self.mul if it % self.mul == 0 else -1,
                 other=others(lrn, ("C", "latent_iter" if self.lat else "max_iter")))
        if self.name.startswith("perc"):
            d["C"] = []
        if w is not None:
            calls = own.model.inference_calls
            d["pred"] = [ints(y) for y in lrn.predict(self.data[0][0])]
            own.model.inference_calls = calls
            if not self.lat:
                d["curve"] = fx(np.asarray(getattr(lrn, "objective_curve_", []), float))
                d["loss"] = fx(np.asarray(getattr(lrn, "loss_curve_", []), float))
        return d

    # -------------------------------------------------------------- operations
    def fit(self, d, warm=False):
        self.last[0] = d
        X, Y, H = self.data[d - 1]
        np.random.seed(11)
        if self.lat:
            return self.a.fit(X, Y, H_init=H) is self.a
        kw = {}
        if warm:
            if self.name.startswith("n"):
                if warm == "soft":
                    kw["warm_start"] = "soft"
                else:
                    kw["constraints"] = self.a.constraints_
            else:
                kw["warm_start"] = warm
        if self.name == "latsub" and not warm and not hasattr(self.a, "w"):
            # the documented start is random
            self.a.w = np.random.RandomState(5).normal(size=pv.size_jf(self.P.m))
        return self.a.fit(X, Y, **kw) is self.a

    def set_(self, what, v):
        k = self.g.r.randrange(3)
        if what == "C":
            v = self.cval(v)
            if self.lat:
                if k == 0:
                    self.a.C = v
                elif k == 1:
                    self.a.base_ssvm.C = v
                else:
                    self.a.set_params(base_ssvm__C=v)
            elif k and not self.name.startswith("perc"):
                self.a.set_params(C=v)
            else:
                self.a.C = v
        else:
            n = "latent_iter" if self.lat else "max_iter"
            if k:
                self.a.set_params(**{n: v * self.mul})
            else:
                setattr(self.a, n, v * self.mul)

    def op(self, op, v):
        ret, same = True, True
        if op in ("fit", "warm", "soft"):
            ret = self.fit(v, {"fit": False, "warm": True, "soft": "soft"}[op])
        elif op == "cut":
            with fuse(type((self.a.base_ssvm if self.lat else self.a).model), 3):
                try:
                    ret = self.fit(v)
                except KeyboardInterrupt:
                    ret = False
        elif op == "setC":
            self.set_("C", v)
        elif op == "setit":
            self.set_("it", v)
        elif op == "clone":
            from sklearn.base import clone
            self.b = clone(self.a)
            self.last[1] = 0
        elif op == "copy":
            self.last[1] = self.last[0]
            self.b = copy.deepcopy(self.a) if self.g.r.random() < .5 else pickle.loads(pickle.dumps(self.a))
        elif op == "swap":
            self.a, self.b = self.b, self.a
            self.last.reverse()
        elif op == "hand":
            X, Y, _ = self.data[self.last[0] - 1]
            given = copy.deepcopy(self.a.constraints_)
            ret = self.b.fit(X, Y, constraints=given) is self.b
        elif op == "predict":
            X, Y, _ = self.data[self.g.r.randrange(2)]
            was = self.obs(self.a)
            p = [ints(y) for y in self.a.predict(X)]
            s = self.a.score(X, Y)
            same = p == [ints(y) for y in self.a.predict(X)] and s == self.a.score(X, Y) and self.obs(self.a) == was
        return ret, same

    def history(self, hist):
        with call("new"):
            self.new()
            rec().ev("new", a=self.obs(self.a))
            for op, v in hist:
                bef = self.obs(self.b)
                ret, same = self.op(op, v)
                b = self.obs(self.b)
                rec().ev("op", op=op, d=v, v=v, ret=bool(ret), same=bool(same), a=self.obs(self.a), b=b,
                         apart=op in ("clone", "copy", "swap", "hand") or b == bef)


def parts_model(P):
    return P.model(record=False)


@contextmanager
def fuse(cls, k):
    """the k-th inference of a fit is interrupted from the keyboard"""
    left = [k]
    names = [n for n in ("loss_augmented_inference", "inference") if hasattr(cls, n)]
    old = {n: getattr(cls, n) for n in names}
    own = {n for n in names if n in cls.__dict__}

    def wrap(f):
        def g(self, *a, **kw):
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt
            return f(self, *a, **kw)
        return g
    batch = {}
    for n in ("batch_loss_augmented_inference", "batch_inference"):
        if n in cls.__dict__:
            batch[n] = cls.__dict__[n]
    try:
        for n in names:
            setattr(cls, n, wrap(old[n]))
        for n, f in batch.items():
            setattr(cls, n, wrap(f))
        yield
    finally:
        for n in names:
            if n in own:
                setattr(cls, n, old[n])
            else:
                delattr(cls, n)
        for n, f in batch.items():
            setattr(cls, n, f)


def c16():
    g = Gen(pv.SEED * 1000 + 16)
    hists = {}
    for f in ("resume", "keep", "opt", "fresh"):
        hists[f] = [h for _, _, h in prints(tlc("MCLifecycle", "MCLife_%s_%d" % (f, scale(3, 4))), "LIFE")]
    rounds = scale(1, 3)
    for r in range(rounds):
        for name in sorted(LIVES):
            family, mul = LIVES[name]
            hs = [h for h in hists[family] if name.startswith("n") or all(o[0] != "hand" for o in h)]
            g.r.shuffle(hs)
            # histories with several fits first
            fits = ("fit", "warm", "soft", "cut", "hand")
            rich = [h for h in hs if sum(o[0] in fits for o in h) >= 2]
            poor = [h for h in hs if h not in rich]
            hs = rich[:scale(45, 300)] + poor[:scale(10, 60)]
            kind = g.r.choice([k for k in KINDS if k != "rescale" or not name.startswith("perc")])
            P, parts = halves(g, kind, latent=name.startswith("lat"))
            L = Life(name, P, parts, g.r.choice([0, 1]), g)
            tol = 1311 if family == "opt" else 2
            rec().trace("life-%s-%s-%d" % (name, P.kind, r), mod="TraceLife",
                        prob=dict(family=family, tol=tol, other=L.obs(L.a)["other"]))
            # the reference runs come first
            refs = [[["fit", d]] for d in (1, 2)] + [[["setC", 2], ["fit", d]] for d in (1, 2)]
            if family in ("resume", "keep"):
                refs += [[["setit", 4], ["fit", d]] for d in (1, 2)]
            for h in refs + hs:
                L.history(h)
    pv.REC.end()
