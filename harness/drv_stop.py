"""C25: training that is interrupted from the keyboard, and resumed"""
from contextlib import contextmanager

import numpy as np

import drv_cp
import drv_step
import pv
from drv_cp import Snap, begin, con1, conN, end1, one_slack_events
from learn import certificate, problem
from pv import Gen, call, fx, ints, rec, scale

SEARCH = ("inference", "loss_augmented_inference", "batch_inference", "batch_loss_augmented_inference", "latent")
OTHER = ("joint_feature", "batch_joint_feature", "loss", "batch_loss", "continuous_loss", "max_loss",
         "mean_joint_feature", "base_loss", "label_from_latent", "loss_augment_unaries")


class Fuse(object):
    """counts what the learner asks for, and interrupts at the entry of request k"""
    def __init__(self, k=None):
        self.k, self.log, self.busy = k, [], 0

    def tick(self, what):
        self.log.append(what)
        if self.k is not None and len(self.log) == self.k:
            raise KeyboardInterrupt

    def call(self, name, f, *a, **kw):
        if self.busy:
            return f(*a, **kw)
        self.tick(name)
        self.busy += 1
        try:
            return f(*a, **kw)
        finally:
            self.busy -= 1


def armed(model, fuse):
    """an instance whose methods pass the fuse when they are called from outside the model"""
    base = type(model)
    own = {}

    def wrap(name):
        f = getattr(base, name)

        def g(self, *a, **kw):
            return fuse.call(name, f, self, *a, **kw)
        return g
    for name in SEARCH + OTHER:
        if callable(getattr(base, name, None)):
            own[name] = wrap(name)
    model.__class__ = type(base.__name__, (base,), own)
    return model


class Watch(object):
    """a logger; its entry is a crash point, except for the final call"""
    def __init__(self, snap, fuse):
        self.snap, self.fuse = snap, fuse

    def __call__(self, learner, iteration="?"):
        if iteration != "final":
            self.fuse.tick("log")
        self.snap(learner, iteration)


@contextmanager
def solver(fuse):
    """so is the entry of the solver of quadratic programs"""
    import cvxopt.solvers
    old = cvxopt.solvers.qp
    cvxopt.solvers.qp = lambda *a, **kw: fuse.call("qp", old, *a, **kw)
    try:
        yield
    finally:
        cvxopt.solvers.qp = old


class Run(object):
    """one call of fit with a fuse; with k=None only the requests are counted"""
    def __init__(self, P, make, k=None, seed=0, **fit):
        X, Y = self.data = P.data()
        self.P, self.fuse, self.k = P, Fuse(k), k
        self.model = armed(P.model(), self.fuse)
        self.snap = Snap(self.model)
        self.lrn = make(self.model, Watch(self.snap, self.fuse))
        np.random.seed(seed)
        with solver(self.fuse):
            try:
                self.ret = self.lrn.fit(X, Y, **fit) is self.lrn
            except KeyboardInterrupt:
                self.ret = False
        self.fuse.k = None

    def points(self):
        """the requests of the iterations: from the first search to the last entry of the logger"""
        log = self.fuse.log
        logs = [i for i, a in enumerate(log) if a == "log"]
        find = [i for i, a in enumerate(log) if a in SEARCH]
        if not logs or not find or find[0] > logs[-1]:
            return []
        return list(range(find[0] + 1, logs[-1] + 2))

    @property
    def iters(self):
        return [s for s in self.snap.snaps if s["it"] != "final"]

    def common(self):
        its = [s["it"] for s in self.snap.snaps]
        out = dict(at=len(self.iters), ret=bool(self.ret), what=self.fuse.log[self.k - 1],
                   logged=its.count("final") == 1 and its[-1] == "final")
        out["w"] = fx(self.lrn.w)
        return out


def chosen(g, pts, log, n):
    """some crash points, of every kind there is"""
    if len(pts) <= n:
        return pts
    kinds = {}
    for k in pts:
        kinds.setdefault(log[k - 1], []).append(k)
    out = []
    names = sorted(kinds)
    g.r.shuffle(names)
    while len(out) < n:
        for a in names:
            if kinds[a] and len(out) < n:
                out.append(kinds[a].pop(g.r.randrange(len(kinds[a]))))
    return sorted(out)


def preds(lrn, X):
    return [ints(y) for y in lrn.predict(X)]


# ------------------------------------------------------------------ cutting planes
def one_slack(g, P, id_, npts, resume, **kw):
    from pystruct.learners import OneSlackSSVM
    kw.setdefault("tol", 0.001)
    kw.setdefault("max_iter", 60)
    make = lambda model, log: OneSlackSSVM(model, C=P.C, logger=log, **kw)
    begin(P, id_, "1", kw, stops=True, keep=False)
    with call("fit"):
        r = Run(P, make)
        X, Y = r.data
        zero = [(np.zeros(pv.size_jf(P.m)), 0.)]
        one_slack_events(P, r.snap.snaps, zero, r.lrn, lambda c: True)
        end1(P, r.lrn, r.snap, X, Y)
        for k in chosen(g, r.points(), r.fuse.log, npts):
            s = Run(P, make, k)
            l = s.lrn
            rec().ev("stop", cons=[con1(P, c) for c in l.constraints_], dual=fx(l.objective_curve_[-1]),
                     primal=fx(l.primal_objective_curve_[-1]), preds=preds(l, X),
                     lens=[len(l.objective_curve_), len(l.primal_objective_curve_), len(l.cached_constraint_)],
                     **s.common())
            if resume and s.ret:
                ok = l.fit(X, Y, warm_start=True) is l
                rec().ev("resumed", w=fx(l.w), tol=fx(kw["tol"]))
                rec().ev("fact", name="resumed", ok=ok and len(l.objective_curve_) == len(l.primal_objective_curve_))


def n_slack(g, P, id_, npts, resume, passes=6, **kw):
    from pystruct.learners import NSlackSSVM
    kw.setdefault("tol", -10)
    make = lambda model, log: NSlackSSVM(model, C=P.C, logger=log, max_iter=passes, **kw)
    keep = kw.get("inactive_window", 50) in (0, 50)
    drv_cp.n_slack_run(P, id_, passes=passes, hdr=dict(stops=True, keep=keep), **kw)
    if rec().cur["evs"][-1]["ev"] == "exception":
        return
    with call("fit"):
        r = Run(P, make)
        X, Y = r.data
        for k in chosen(g, r.points(), r.fuse.log, npts):
            s = Run(P, make, k)
            l = s.lrn
            if not s.ret and not hasattr(l, "constraints_"):
                rec().ev("fact", name="interrupt-handled", ok=False)
                continue
            rec().ev("stop", cons=[[conN(P, c) for c in q] for q in l.constraints_], dual=fx(l.objective_curve_[-1]),
                     primal=fx(l.primal_objective_curve_[-1]), preds=preds(l, X),
                     lens=[len(l.objective_curve_), len(l.primal_objective_curve_)], **s.common())
            if resume and s.ret:
                l.max_iter, l.tol = 100, -10
                ok = l.fit(X, Y, constraints=l.constraints_) is l
                rec().ev("resumed", w=fx(l.w), tol=0)
                rec().ev("fact", name="resumed", ok=ok)


# ------------------------------------------------------------------ step by step
def small(P, runs):
    """inside the range of the arithmetic"""
    for r in runs:
        for c in r.model.log:
            if np.abs(c[3]).max() > 60 or (c[3] ** 2).sum() > 10000:
                return False
    return True


def perceptron(g, P, id_, npts, **kw):
    from pystruct.learners import StructuredPerceptron
    avg, bat, n = kw.get("average", False), bool(kw.get("batch")), P.n
    rec().trace(id_, mod="TraceStep", prob=P.header(alg="perc", latent=False, batch=bat,
                de=kw.get("decay_exponent", 0), t0=kw.get("decay_t0", 10), maxit=kw["max_iter"], stops=True,
                avg=-2 if avg is False else 0 if avg is True else avg))
    rec().ev("begin")
    make = lambda model, log: StructuredPerceptron(model, logger=log, **kw)
    with call("fit"):
        r = Run(P, make)
        drv_step.perc_calls(r.model.log)
        rec().ev("end", w=fx(r.lrn.w), curve=[fx(v) for v in r.lrn.loss_curve_], kept=True)
        for k in chosen(g, r.points(), r.fuse.log, npts):
            s = Run(P, make, k)
            calls = len([c for c in s.model.log if c[0] == "inf"])
            what = s.fuse.log[k - 1]
            if bat:
                # updates follow the predictions of the whole epoch
                hi = calls // n * n
                lo = max(0, hi - n) if what not in SEARCH and what != "log" else hi
            else:
                hi, lo = calls, calls if what in SEARCH or what == "log" else max(0, calls - 1)
            rec().ev("stop", lo=lo, hi=hi, curve=[fx(v) for v in s.lrn.loss_curve_], cont=False,
                     preds=preds(s.lrn, s.data[0]), **s.common())


def subgradient(g, P, id_, npts, latent=False, **kw):
    from pystruct.learners import SubgradientLatentSSVM, SubgradientSSVM
    LN, LD = kw.pop("lr", (0, 1))
    MN, MD = kw.pop("mom", (0, 1))
    n = P.n
    sz = drv_step.sizes(n, kw.get("batch_size"))
    shuf = bool(kw.get("shuffle"))
    rec().trace(id_, mod="TraceStep", prob=P.header(alg="sub", latent=latent, auto=LN == 0, LN=LN, LD=LD, MN=MN, MD=MD,
                de=kw.get("decay_exponent", 1), t0=kw.get("decay_t0", 10), maxit=kw["max_iter"], stops=True,
                avg=kw.get("averaging") or "none", sizes=sz, shuffle=shuf,
                brk=kw.get("break_on_no_constraints", True)))
    rec().ev("begin")
    cls = SubgradientLatentSSVM if latent else SubgradientSSVM
    make = lambda model, log: cls(model, C=P.C, logger=log, momentum=MN / float(MD),
                                  learning_rate="auto" if LN == 0 else LN / float(LD), **kw)

    def end(lrn):
        rec().ev("end", w=fx(lrn.w), obj=fx(lrn.objective_curve_[-1]), nobj=len(lrn.objective_curve_))
    runs = []
    with call("fit"):
        r = Run(P, make)
        runs.append(r)
        drv_step.sub_events(P, sz, r.snap.snaps, n, latent, {})
        end(r.lrn)
        pts = chosen(g, r.points(), r.fuse.log, npts)
        again = [k for k in pts if r.fuse.log[k - 1] in ("loss_augmented_inference", "batch_loss_augmented_inference", "log")]
        last = g.r.choice(again) if again else None
        for k in [k for k in pts if k != last] + [k for k in [last] if k]:
            s = Run(P, make, k)
            runs.append(s)
            # answers of the iterations (the final objective asks once more about every sample)
            done = len(s.iters)
            fresh = [c for c in s.snap.snaps[-1]["calls"] if c[0] == "aug"] if s.ret else []
            extra = fresh[:len(fresh) - n] if done < len(s.snap.snaps) else []
            obj = max(0, len(extra) - n)               # part of the objective after an epoch
            c = min(len(extra), n)
            steps, o = 0, 0
            for b in sz:
                o += b
                steps += o <= c
            hi = done * len(sz) + steps
            what = s.fuse.log[k - 1]
            exact = what in ("loss_augmented_inference", "batch_loss_augmented_inference", "log", "latent") \
                or obj or (c == n and what in SEARCH)
            rec().ev("stop", lo=hi if exact else max(0, hi - 1), hi=hi, curve=[fx(v) for v in s.lrn.objective_curve_],
                     cont=bool(k == last and s.ret), preds=[] if latent else preds(s.lrn, s.data[0]), **s.common())
            if k == last and s.ret:
                rec().ev("restart", mode="warm")
                m = len(s.snap.snaps)
                s.lrn.fit(s.data[0], s.data[1], warm_start=True)
                drv_step.sub_events(P, sz, s.snap.snaps[m:], n, latent, {})
                end(s.lrn)
        if not small(P, runs):
            rec().drop()


def frank_wolfe(g, P, id_, npts, **kw):
    from pystruct.learners import FrankWolfeSSVM
    n, bm = P.n, bool(kw.get("batch_mode"))
    make = lambda model, log: FrankWolfeSSVM(model, C=P.C, logger=log, **kw)
    drv_step.frank_wolfe(P, id_, mod="TraceStep", stops=True, **kw)
    if rec().cur is None or rec().cur["evs"][-1]["ev"] == "exception":
        return
    with call("fit"):
        r = Run(P, make)
        for k in chosen(g, r.points(), r.fuse.log, npts):
            s = Run(P, make, k)
            done = len(s.iters)
            fresh = [c for c in s.snap.snaps[-1]["calls"] if c[0] == "aug"] if s.ret else []
            what = s.fuse.log[k - 1]
            # the final objective asks about every sample, and so does the final duality gap
            chk = len(s.iters[-1]["objective_curve_"]) if done else 0
            fin = n * (2 if len(s.lrn.objective_curve_) == 1 and not chk else 1)
            c = min(max(0, len(fresh) - fin), n)
            per = 1 if bm else n
            hi = done * per + (c // n if bm else c)
            rec().ev("stop", lo=max(0, hi - 1), hi=hi, primal=fx(s.lrn.primal_objective_curve_[-1]),
                     dual=fx(s.lrn.objective_curve_[-1]), chk=chk, cont=False, preds=preds(s.lrn, s.data[0]),
                     lens=[len(s.lrn.objective_curve_), len(s.lrn.primal_objective_curve_)], **s.common())


def c25():
    g = Gen(pv.SEED * 1000 + 25)
    npts = scale(5, 40)
    for i in range(scale(24, 160)):
        P = problem(g)
        one_slack(g, P, "stop1-%s-%d" % (P.kind, i), npts, True, inference_cache=g.r.choice([0, 0, 2, 50]),
                  tol=g.r.choice([.001, .001, .05]), show_loss_every=g.r.choice([0, 0, 1]))
    for i in range(scale(6, 40)):
        P = problem(g)
        one_slack(g, P, "stop1-prune-%s-%d" % (P.kind, i), npts, False, inactive_window=g.r.choice([1, 2]),
                  inactive_threshold=g.r.choice([1e-5, 1e-3]), inference_cache=g.r.choice([0, 2]))
    for i in range(scale(20, 120)):
        P = problem(g)
        n_slack(g, P, "stopn-%s-%d" % (P.kind, i), npts, True, batch_size=g.r.choice([-1, 100, 1, 2]),
                show_loss_every=g.r.choice([0, 1]))
    kinds = ["multiclass", "multiclass", "binary", "multilabel", "chain", "graph", "edgefeat", "grid"]
    for i in range(scale(60, 500)):
        P = problem(g, kind=g.r.choice(kinds), n=g.r.randint(2, 5))
        perceptron(g, P, "stop-perc-%s-%d" % (P.kind, i), npts, batch=g.r.random() < .5, max_iter=g.r.randint(2, 8),
                   average=g.r.choice([False, True, 0, 1, 2, -1, -1]), decay_exponent=g.r.choice([0, 0, -1]),
                   decay_t0=g.r.choice([1, 2, 10]))
    for i in range(scale(60, 500)):
        P = problem(g, n=g.r.randint(2, 5))
        kw = drv_step.sub_args(g, i)
        kw["max_iter"] = max(2, kw["max_iter"])
        if kw["averaging"] is None:
            kw.pop("averaging")
        subgradient(g, P, "stop-sub-%s-%d" % (P.kind, i), npts, batch_size=g.r.choice([None, None, 1, -1, 2]),
                    shuffle=g.r.random() < .15, **kw)
    for i in range(scale(20, 120)):
        P = drv_step.latent_problem(g, g.r.randint(2, 4))
        kw = drv_step.sub_args(g, i)
        kw["max_iter"] = max(2, kw["max_iter"])
        subgradient(g, P, "stop-latsub-%s-%d" % (P.kind, i), npts, latent=True, **kw)
    for i in range(scale(40, 400)):
        P = problem(g, n=g.r.randint(1, 4))
        frank_wolfe(g, P, "stop-fw-%s-%d" % (P.kind, i), npts, batch_mode=g.r.random() < .4,
                    line_search=g.r.random() < .7, do_averaging=g.r.random() < .5,
                    check_dual_every=g.r.choice([1, 2, 3]), random_state=i,
                    sample_method=g.r.choice(["perm", "rnd", "seq"]), tol=.001, max_iter=g.r.randint(2, 8))
