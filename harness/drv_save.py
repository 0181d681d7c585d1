"""C17: the logger that saves learners"""
import os
import pickle
import resource
import shutil
import signal

import numpy as np

import pv
from drv_step import latent_problem
from learn import problem
from pv import Gen, call, exact, fx, ints, py, px, rec, scale
from tlcrun import prints, tlc


class Poison(object):
    """an attribute that cannot be pickled while armed"""
    armed = False

    def __reduce__(self):
        if Poison.armed:
            raise RuntimeError("planted: cannot be pickled")
        return (Poison, ())


def params(lrn):
    p = lrn.get_params(deep=False)
    p.pop("logger", None)
    out = []
    for k in sorted(p):
        v = p[k]
        if k == "model":
            v = type(v).__name__ + str(sorted((a, str(b)) for a, b in v.__dict__.items()
                                              if a not in ("inference_calls", "log", "_warm")))
        elif k == "base_ssvm":
            v = params(v)
        out.append("%s=%s" % (k, v))
    return type(lrn).__name__ + ";".join(out)


def view(lrn, X):
    """a learner as the specification sees it"""
    owner = getattr(lrn, "base_ssvm", lrn)
    c = getattr(owner, "inference_cache_", None)
    w = getattr(lrn, "w", None)
    # what training recorded besides: curves, constraints, multipliers
    own = [o for o in (lrn, owner) if o is not None]
    cur = [[a, str(np.asarray(o.__dict__[a], float).tolist() if a.endswith("curve_") else len(o.__dict__[a]))]
           for o in own for a in sorted(o.__dict__) if a.endswith("_") and a != "inference_cache_"
           and isinstance(o.__dict__[a], list)]
    d = dict(w=fx(w) if w is not None else [], par=params(lrn), cur=cur, cache=-1 if c is None else sum(len(q) for q in c), pred=[])
    if w is not None and X is not None:
        m = getattr(owner, "model")
        calls = m.inference_calls
        d["pred"] = [ints(y) for y in lrn.predict(X)]
        m.inference_calls = calls
    return d


def cache_of(lrn):
    return getattr(getattr(lrn, "base_ssvm", lrn), "inference_cache_", None)


def load_file(path, logger):
    from pystruct.utils import SaveLogger
    return SaveLogger(path).load()


def look(folder, X):
    out = []
    for name in sorted(os.listdir(folder)):
        try:
            l2 = load_file(os.path.join(folder, name), None)
            out.append(dict(view(l2, X), name=name, st="ok"))
        except Exception:
            out.append({"name": name, "st": "bad"})
    return out


def one_call(logger, lrn, it, fault, folder, X):
    """a call of the logger, with a fault, and what it leaves behind"""
    before, cache = view(lrn, X), cache_of(lrn)
    deep = pickle.dumps(cache)
    raised = ""
    away = folder + ".away"
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    if fault == "open":
        os.rename(folder, away)
    elif fault == "dump":
        Poison.armed = True
    elif fault == "disk":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (20, old[1]))
    try:
        logger(lrn, it)
    except Exception as e:
        raised = type(e).__name__
    finally:
        Poison.armed = False
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        if fault == "open":
            if os.path.isdir(folder):
                shutil.rmtree(folder)
            os.rename(away, folder)
    now = cache_of(lrn)
    same = now is cache
    same = same and pickle.dumps(now) == deep
    rec().ev("save", it=-1 if it == "final" else it, final=it == "final", fault=fault, raised=bool(raised), err=raised,
             before=before, live=view(lrn, X), same=bool(same), files=look(folder, X))


# ------------------------------------------------------------------ replay of the design's behaviours
def stub(kind, P):
    """a learner with the state of training, without the training"""
    from pystruct import learners as L
    m = P.model(record=False)
    X, Y = P.data()
    m.initialize(X, Y)
    if kind == "none":
        lrn = owner = L.NSlackSSVM(m, C=P.C, max_iter=3)
    elif kind == "own":
        lrn = owner = L.OneSlackSSVM(m, C=P.C, max_iter=3, inference_cache=2)
    else:
        owner = L.OneSlackSSVM(m, C=P.C, max_iter=3, inference_cache=2)
        lrn = L.LatentSSVM(owner, latent_iter=3)
    owner.w = np.zeros(m.size_joint_feature)
    owner.poison_ = Poison()
    return lrn, owner, X, Y


def replay(i, beh, g):
    from pystruct.utils import SaveLogger
    _, kind, each, period, hist = beh
    P = latent_problem(g, 2, "lgraph") if kind == "base" else problem(g, kind=g.r.choice(["multiclass", "chain"]), n=2)
    n = 3 if not pv.THOROUGH else 4
    folder = os.path.join(pv.WORK, "save")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    pre, post = ("m_", ".pickle") if i % 2 else ("run", "x.bin")
    rec().trace("replay-%d" % i, prob=dict(each=each, period=period, pre=pre, post=post))
    with call("replay", 30):
        lrn, owner, X, Y = stub(kind, P)
        logger = SaveLogger(os.path.join(folder, pre + ("%d" if each else "") + post), save_every=period,
                            verbose=0)
        hist = list(hist)
        for it in list(range(n + 1)) + ["final"]:
            owner.w = np.array(g.ints(len(owner.w)), float)
            owner.inference_cache_ = [[(np.array(g.ints(2)), float(g.r.randint(0, 3)))] * g.r.randint(0, 2) for _ in X] \
                if kind != "none" else None
            if kind == "none":
                del owner.inference_cache_
            due = it == "final" or it % period == 0
            f = hist.pop(0) if due else "ok"
            one_call(logger, lrn, it, "none" if f == "ok" else f, folder, X)
    shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------------------ the logger in training
class Spy(object):
    """calls the real logger and looks at what it did"""
    def __init__(self, logger, folder, X):
        self.logger, self.folder, self.X, self.finals, self.calls = logger, folder, X, 0, []

    def __getstate__(self):
        return {}

    def __call__(self, lrn, iteration="none"):
        self.finals += iteration == "final"
        self.calls.append(iteration)
        one_call(self.logger, lrn, iteration, "none", self.folder, self.X)


LEARNERS = ["n", "1", "1cache", "sub", "sub-avg", "fw-batch", "fw-bc", "fw-avg", "perc", "perc-avg", "latent", "latent-n", "latsub"]


def trained(i, g):
    from pystruct import learners as L
    from pystruct.utils import SaveLogger
    kind = LEARNERS[i % len(LEARNERS)]
    lat = kind.startswith("lat")
    P = latent_problem(g, 3) if lat else problem(g, kind=g.r.choice(["multiclass", "chain", "binary", "multilabel", "graph", "edgefeat"]), n=3)
    X, Y = P.data()
    folder = os.path.join(pv.WORK, "save")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    period, each = g.r.choice([1, 2, 3, 10]), g.r.random() < .5
    pre, post = "m", ".pkl"
    base = os.path.join(folder, pre + ("%d" if each else "") + post)
    logger = SaveLogger(base, save_every=period)
    spy = Spy(logger, folder, X)
    m = P.model(record=False)
    kw = dict(C=P.C, logger=spy, max_iter=g.r.randint(1, 12))
    rec().trace("train-%s-%s-%d" % (kind, P.kind, i), prob=dict(each=each, period=period, pre=pre, post=post))
    with call("train", 60):
        if kind == "n":
            lrn = L.NSlackSSVM(m, **kw)
        elif kind in ("1", "1cache"):
            lrn = L.OneSlackSSVM(m, inference_cache=0 if kind == "1" else 3, **kw)
        elif kind.startswith("sub"):
            lrn = L.SubgradientSSVM(m, averaging="linear" if kind == "sub-avg" else None, **kw)
        elif kind.startswith("fw"):
            lrn = L.FrankWolfeSSVM(m, batch_mode=kind == "fw-batch", do_averaging=kind == "fw-avg",
                                   check_dual_every=g.r.choice([0, 1, 3]), **kw)
        elif kind.startswith("perc"):
            kw.pop("C")
            lrn = L.StructuredPerceptron(m, average=kind == "perc-avg", **kw)
        elif kind == "latsub":
            lrn = L.SubgradientLatentSSVM(m, **kw)
        else:
            inner = (L.OneSlackSSVM(m, C=P.C, max_iter=20, inference_cache=3) if kind == "latent" else
                     L.NSlackSSVM(m, C=P.C, max_iter=20))
            lrn = L.LatentSSVM(inner, latent_iter=g.r.randint(1, 5), logger=spy)
        if lat:
            H = []
            for x, y in zip(P.xs, P.ys):
                while True:
                    h = g.labeling(P.m, x)
                    if g.visible(P.m, x, h) == y:
                        break
                H.append(py(P.m, x, h))
            lrn.fit(X, Y, H_init=H)
        else:
            lrn.fit(X, Y)
        rec().ev("end", live=view(lrn, X), files=look(folder, X), finals=spy.finals, trained=True,
                 lname=pre + ("final" if each else "") + post)
        num = [c for c in spy.calls if c != "final"]
        rec().ev("fact", name="called-in-order", ok=spy.calls == list(range(len(num))) + ["final"] or
                 spy.calls == list(range(1, len(num) + 1)) + ["final"])
        # the learner loads, scores alike and can go on
        l2 = SaveLogger(base.replace("%d", "final")).load()
        rec().ev("fact", name="score-kept", ok=l2.score(X, Y) == lrn.score(X, Y))
        w = np.array(l2.w)
        if kind in ("n", "1", "1cache", "sub", "latsub"):
            l2.max_iter = 2
            l2.logger = None
            if lat:
                l2.fit(X, Y, H_init=H, warm_start=True)
            else:
                l2.fit(X, Y, warm_start=True)
        rec().ev("fact", name="live-independent", ok=np.array_equal(w, lrn.w))
    shutil.rmtree(folder, ignore_errors=True)


def c17():
    g = Gen(pv.SEED * 1000 + 17)
    behs = prints(tlc("SaveLogger", scale("SaveLogger", "SaveLoggerBig")), "SAVES")
    few = [b for b in behs if sum(f != "ok" for f in b[4]) <= 1]
    more = [b for b in behs if sum(f != "ok" for f in b[4]) > 1]
    g.r.shuffle(more)
    for i, b in enumerate(few + more[:scale(500, 7000)]):
        replay(i, b, g)
    for i in range(scale(130, 900)):
        trained(i, g)
