"""C09-C11: the cutting-plane learners"""
import numpy as np

import learn
import pv
from learn import FX, Problem, answer, certificate, ffl, problem, qp_dual
from pv import Gen, call, exact, fx, rec, scale


def jscale(m):
    return m["ps"] * (m["D"] if m["rescale"] else 1)


def begin(P, id_, alg, learner_kw, key="", **hdr):
    kw = learner_kw
    n = P.n
    bs = kw.get("batch_size", 100)
    bs = n if bs == -1 else bs
    nb = int(np.ceil(float(n) / bs))
    batches, start = [], 1
    for q in range(nb):                              # gen_even_slices
        k = n // nb + (1 if q < n % nb else 0)
        batches.append([start, start + k - 1])
        start += k
    d = P.header(alg=alg, cap=kw.get("inference_cache", 0), tol=fx(kw.get("tol", 0.001)),
                 neg=list(kw.get("negativity_constraint") or []), maxit=kw["max_iter"],
                 batches=batches, bound=True, exactend=True, relaxed=False,
                 win=kw.get("inactive_window", 50), thrhigh=kw.get("inactive_threshold", 1e-5) >= 1e-3,
                 switch=kw.get("switch_to") is not None, **certificate(P))
    d.update(hdr)
    if d["neg"]:
        d["bound"] = d["bound"] and False
    rec().trace(id_, key=key, mod="TraceCP", prob=d)
    rec().ev("begin")


def find_ev(P, chunk, exactness=True):
    rec().ev("find", **{"is": [c[1] + 1 for c in chunk]}, ws=[fx(c[3]) for c in chunk],
             ans=[answer(P.m, c[4]) for c in chunk], exact=exactness)


# ------------------------------------------------------------------ one-slack
class Snap(object):
    """a logger: what is observable after each iteration"""
    def __init__(self, model):
        self.model, self.snaps, self.pos = model, [], 0

    def __call__(self, learner, iteration="?"):
        s = dict(it=iteration, w=np.array(learner.w, float), calls=list(self.model.log[self.pos:]))
        self.pos = len(self.model.log)
        for a in ("objective_curve_", "primal_objective_curve_", "cached_constraint_", "timestamps_"):
            if hasattr(learner, a):
                s[a] = list(getattr(learner, a))
        if hasattr(learner, "constraints_"):
            s["cons"] = [(np.array(c[0], float), float(c[1])) if isinstance(c, tuple) else c for c in learner.constraints_]
        c = getattr(learner, "inference_cache_", None)
        s["cache"] = [list(q) for q in c] if c else None
        self.snaps.append(s)


def con1(P, c):
    s = FX * P.n
    return {"d": fx(np.asarray(c[0]) * jscale(P.m) * P.n), "l": fx(c[1] * P.n * P.m["D"])}


def one_slack_events(P, snaps, first, fin, exact_of):
    """events of one call of fit; `first` constraints before, returns the last ones"""
    cons = first
    n = P.n
    for s in snaps[:-1]:
        calls = [c for c in s["calls"] if c[0] == "aug"]
        for q in range(0, len(calls) - n + 1, n):
            find_ev(P, calls[q:q + n], exact_of(calls[q]))
        cur = s["cons"]
        # the constraint that is not among the earlier ones
        new = cur[-1]
        unseen = any(new is c for c in cons) or (len(cur) <= len(cons) and any(
            np.array_equal(new[0], c[0]) and new[1] == c[1] for c in cons))
        allc = [con1(P, c) for c in cons] + [con1(P, new)]
        D = [np.array(c["d"]) / FX / jscale(P.m) for c in allc]
        L = [c["l"] / FX / P.m["D"] for c in allc]
        al = ffl(qp_dual(D, L, [0] * len(L), P.C))
        al2 = []
        if len(cur) < len(allc):
            rest = [con1(P, c) for c in cur]
            al2 = ffl(qp_dual([np.array(c["d"]) / FX / jscale(P.m) for c in rest],
                              [c["l"] / FX / P.m["D"] for c in rest], [0] * len(rest), P.C))
        cache = s["cache"]
        rec().ev("iter", al2=al2, unseen=unseen, new=con1(P, new), cons=[con1(P, c) for c in cur], w=fx(s["w"]), al=al,
                 dual=fx(s["objective_curve_"][-1]), primal=fx(s["primal_objective_curve_"][-1]),
                 cached=bool(s["cached_constraint_"][-1]),
                 cache=[[answer(P.m, e[2]) for e in q] for q in cache] if cache else [[] for _ in range(n)])
        cons = cur
    return cons


def cache_truth(P, s, X, Y):
    """the stored joint features and losses of the cache entries"""
    ok = True
    if s["cache"]:
        base = pv.build(P.m, P.method)
        for i, q in enumerate(s["cache"]):
            for jf, loss, yh in q:
                want = base.joint_feature(X[i], yh, Y[i]) if P.m["rescale"] else base.joint_feature(X[i], yh)
                ok = ok and np.allclose(jf, want) and np.allclose(loss, base.loss(Y[i], yh))
    return bool(ok)


def one_slack_run(P, id_, key="", hdr=(), mode=None, model=None, exact_of=lambda c: True, C2=None, **kw):
    from pystruct.learners import OneSlackSSVM
    kw.setdefault("max_iter", 40)
    kw.setdefault("tol", 0.001)
    begin(P, id_, "1", kw, key=key, **dict(hdr))
    X, Y = P.data()
    model = model or P.model()
    zero = [(np.zeros(pv.size_jf(P.m)), 0.)]
    with call("fit", what2="one-slack"):
        snap = Snap(model)
        lrn = OneSlackSSVM(model, C=P.C, logger=snap, verbose=pv.loud(id_), **kw)
        lrn.fit(X, Y)
        cons = one_slack_events(P, snap.snaps, zero, lrn, exact_of)
        if mode is not None:
            # the last constraints stay (warm) or are dropped (soft)
            end1(P, lrn, snap, X, Y, final=False)
            rec().ev("restart", mode="warm" if mode is True else "soft")
            k = len(snap.snaps)
            lrn.fit(X, Y, warm_start=mode)
            one_slack_events(P, snap.snaps[k:], cons if mode is True else zero, lrn, exact_of)
        end1(P, lrn, snap, X, Y)


def end1(P, lrn, snap, X, Y, final=True):
    s = snap.snaps[-1]
    rec().ev("end", w=fx(lrn.w), cons=[con1(P, c) for c in lrn.constraints_],
             dual=fx(lrn.objective_curve_[-1]), primal=fx(lrn.primal_objective_curve_[-1]), extra=1,
             lens=[len(lrn.objective_curve_), len(lrn.primal_objective_curve_), len(lrn.cached_constraint_)])
    rec().ev("fact", name="cache-entries-truthful", ok=all(cache_truth(P, q, X, Y) for q in snap.snaps))
    rec().ev("fact", name="timestamps", ok=len(lrn.timestamps_) == len(lrn.objective_curve_) + 1
             and all(a <= b for a, b in zip(lrn.timestamps_[1:], lrn.timestamps_[2:])))


# ------------------------------------------------------------------ n-slack
def conN(P, c):
    return {"a": answer(P.m, c[0]), "d": fx(np.asarray(c[1]) * jscale(P.m)), "l": fx(c[2] * P.m["D"])}


def n_slack_run(P, id_, key="", hdr=(), exact_of=lambda c: True, mkmodel=None, passes=12, **kw):
    """the state after every pass is the result of a run that is limited to that many passes"""
    from pystruct.learners import NSlackSSVM
    kw.setdefault("tol", -10)
    maxit = passes
    size = kw.get("batch_size", 100)
    if size > 0 and kw.get("inactive_window"):
        # every batch solves the QP: a constraint could come and go within one pass, unseen
        kw["inactive_window"] = max(kw["inactive_window"], -(-P.n // size))
    begin(P, id_, "n", dict(kw, max_iter=maxit), key=key, **dict(hdr))
    X, Y = P.data()
    n = P.n
    with call("fit", what2="n-slack"):
        last = None
        for k in range(1, maxit + 1):
            model = mkmodel() if mkmodel else P.model()
            lrn = NSlackSSVM(model, C=P.C, max_iter=k, verbose=pv.loud(id_), **kw)
            lrn.fit(X, Y)
            calls = [c for c in model.log if c[0] == "aug"]
            done = len(lrn.objective_curve_) - 1
            if done < k:
                break
            last = lrn
            find_ev(P, calls[(k - 1) * n:k * n], exact_of(calls[(k - 1) * n]))
            cons = [[conN(P, c) for c in q] for q in lrn.constraints_]
            D = [np.array(c["d"]) / FX / jscale(P.m) for q in cons for c in q]
            L = [c["l"] / FX / P.m["D"] for q in cons for c in q]
            grp = [i for i, q in enumerate(cons) for c in q]
            flat = ffl(qp_dual(D, L, grp, P.C))
            al, o = [], 0
            for q in cons:
                al.append(flat[o:o + len(q)])
                o += len(q)
            rec().ev("iter", cons=cons, w=fx(lrn.w), al=al, dual=fx(lrn.objective_curve_[k - 1]),
                     primal=fx(lrn.primal_objective_curve_[k - 1]))
        if last is not None:
            rec().ev("end", w=fx(lrn.w), dual=fx(lrn.objective_curve_[-1]),
                     primal=fx(lrn.primal_objective_curve_[-1]),
                     lens=[len(lrn.objective_curve_), len(lrn.primal_objective_curve_)])
            rec().ev("fact", name="timestamps", ok=len(lrn.timestamps_) == len(lrn.objective_curve_) + 1
                     and all(a <= b for a, b in zip(lrn.timestamps_[1:], lrn.timestamps_[2:])))


# ------------------------------------------------------------------ the properties
def c09():
    g = Gen(pv.SEED * 1000 + 9)
    for i in range(scale(24, 200)):
        P = problem(g)
        n_slack_run(P, "n-%s-%d" % (P.kind, i), batch_size=g.r.choice([-1, 100, 1, 2]),
                    inactive_window=g.r.choice([0, 1, 50]))
    for i in range(scale(24, 200)):
        P = problem(g)
        one_slack_run(P, "1-%s-%d" % (P.kind, i))
    for i in range(scale(16, 100)):
        P = problem(g, kind=g.r.choice(["multiclass", "chain", "graph", "edgefeat"]))
        s = pv.size_jf(P.m)
        if i % 4 < 2:
            # weights that become negative anyway, or any
            from pystruct.learners import OneSlackSSVM
            X, Y = P.data()
            with call("fit"):
                w = OneSlackSSVM(P.model(), C=P.C, max_iter=40).fit(X, Y).w
            own = [q for q in range(s) if w[q] < -.01] or list(range(s))
        else:
            own = list(range(s))
        neg = g.r.sample(own, g.r.randint(1, min(3, len(own))))
        if i % 2:
            n_slack_run(P, "n-neg-%s-%d" % (P.kind, i), negativity_constraint=neg, passes=6)
        else:
            one_slack_run(P, "1-neg-%s-%d" % (P.kind, i), negativity_constraint=neg)


def c10():
    g = Gen(pv.SEED * 1000 + 10)
    for i in range(scale(24, 200)):
        P = problem(g)
        n_slack_run(P, "n-%s-%d" % (P.kind, i), batch_size=g.r.choice([-1, 100, 100, 2]),
                    tol=g.r.choice([-10, 0.001, 0.1]))
    for i in range(scale(30, 240)):
        P = problem(g)
        one_slack_run(P, "1-%s-%d" % (P.kind, i), tol=g.r.choice([0.001, 0.01, 0.1]),
                      max_iter=g.r.choice([3, 60, 60]))


def c11():
    g = Gen(pv.SEED * 1000 + 11)
    for i in range(scale(16, 150)):
        P = problem(g)
        one_slack_run(P, "cache-%s-%d" % (P.kind, i), inference_cache=g.r.choice([1, 2, 3, 50]),
                      cache_tol=g.r.choice(["auto", None, 0.1, 0.001]), max_iter=60)
    for i in range(scale(10, 80)):
        P = problem(g)
        one_slack_run(P, "prune-%s-%d" % (P.kind, i), inactive_window=g.r.choice([1, 2, 3]),
                      inactive_threshold=g.r.choice([1e-5, 1e-3]), max_iter=60)
    for i in range(scale(14, 80)):
        # constraints that come back
        P = problem(g, kind=g.r.choice(["multilabel", "multilabel", "graph", "edgefeat"]), n=5, lo=-3, hi=3)
        one_slack_run(P, "back-%s-%d" % (P.kind, i), inactive_window=g.r.choice([2, 3, 4]),
                      inactive_threshold=1e-3, max_iter=60)
    for i in range(scale(10, 80)):
        P = problem(g)
        one_slack_run(P, "warm-%s-%d" % (P.kind, i), mode=g.r.choice([True, "soft"]),
                      inference_cache=g.r.choice([0, 0, 2]), max_iter=g.r.choice([2, 60]))
    for i in range(scale(8, 60)):
        P = problem(g)
        n_slack_run(P, "nprune-%s-%d" % (P.kind, i), inactive_window=g.r.choice([1, 2]),
                    inactive_threshold=g.r.choice([1e-5, 1e-3]))
    for i in range(scale(8, 60)):
        # first an approximate method, then the exact one
        P = problem(g, kind="loopy")
        full = P.method
        def mkm():
            return P.model(method="max-product")
        ex = lambda c: c[5] == full
        if i % 2:
            one_slack_run(P, "switch1-%d" % i, model=mkm(), exact_of=ex, switch_to=full)
        else:
            n_slack_run(P, "switchn-%d" % i, mkmodel=mkm, exact_of=ex, switch_to=full)
    for i in range(scale(8, 60)):
        # relaxed answers
        P = problem(g, kind="loopy")
        P.method = "ad3"
        h = dict(bound=False, exactend=False, relaxed=True)
        if i % 2:
            one_slack_run(P, "relax1-%d" % i, hdr=h, exact_of=lambda c: False,
                          inference_cache=g.r.choice([0, 2]))
        else:
            n_slack_run(P, "relaxn-%d" % i, hdr=h, exact_of=lambda c: False)
    for i in range(scale(24, 120)):
        # made up relaxed answers: caches and working sets tell marginals apart
        P = problem(g, kind=g.r.choice(["loopy", "graph", "edgefeat"]))
        h = dict(bound=False, exactend=False, relaxed=True, script=True)
        if i % 3:
            one_slack_run(P, "script1-%d" % i, hdr=h, model=learn.scripted(P, g.r), exact_of=lambda c: False,
                          inference_cache=g.r.choice([1, 2, 4, 50]), max_iter=g.r.choice([6, 12]), tol=-100,
                          cache_tol=g.r.choice(["auto", 1000, None]), inactive_window=0)
        else:
            n_slack_run(P, "scriptn-%d" % i, hdr=h, mkmodel=script_again(P, g.r.randrange(10 ** 6)),
                        exact_of=lambda c: False, check_constraints=False, passes=6)


def script_again(P, seed):
    """the same answers in every run"""
    return lambda: learn.scripted(P, Gen(seed).r)
