"""C22: calls leave what they are given alone, and are repeatable"""
import hashlib

import numpy as np

import pv
from drv_life import halves
from drv_step import latent_problem
from learn import problem
from pv import Gen, KINDS, LATK, build, call, py, px, rec, scale, wvec

EXACT = ("ad3", {"branch_and_bound": True})


# ------------------------------------------------------------------ digests
def canon(o, out, quant):
    if isinstance(o, np.ndarray):
        out.append("A%s%s" % (o.dtype.str, o.shape))
        if o.dtype == object:
            for v in o.ravel():
                canon(v, out, quant)
        elif quant and o.dtype.kind == "f":
            out.append(repr([round(float(v) * 1e6) if np.isfinite(v) else str(v) for v in o.ravel()]))
        else:
            out.append(repr(o.ravel().tolist()))
    elif isinstance(o, (list, tuple)):
        out.append("%s%d" % (type(o).__name__, len(o)))
        for v in o:
            canon(v, out, quant)
    elif isinstance(o, dict):
        out.append("D%d" % len(o))
        for k in sorted(o, key=repr):
            out.append(repr(k))
            canon(o[k], out, quant)
    elif quant and isinstance(o, (float, np.floating)):
        out.append("f%s" % (round(float(o) * 1e6) if np.isfinite(o) else o))
    elif isinstance(o, (np.generic,)):
        out.append("%s%r" % (o.dtype.str, o.item()))
    elif o is None or isinstance(o, (int, float, str, bool)):
        out.append("%s%r" % (type(o).__name__, o))
    else:
        out.append("%s" % type(o).__name__)


def dg(o, quant=False):
    out = []
    canon(o, out, quant)
    return hashlib.md5("|".join(out).encode()).hexdigest()[:12]


# ------------------------------------------------------------------ a world of objects and operations
class World(object):
    def __init__(self, id_):
        self.mine, self.kept, self.n = {}, {}, 0
        rec().trace(id_)

    def own(self, **objs):
        for k, o in objs.items():
            self.mine[k] = o
        rec().ev("make", objs=[dict(id=k, dg=dg(objs[k])) for k in objs])

    def digests(self):
        return [dict(id=k, dg=dg(o)) for k, o in self.mine.items()]

    def op(self, name, fun, keep=False, repeatable=True):
        self.n += 1
        with call(name) as c:
            np.random.seed(3)
            res = fun()
        if not c.ok:
            return None
        new = "r%d" % self.n
        rec().ev("call", op=name if repeatable else "%s #%d" % (name, self.n), objs=self.digests(), res=dg(res, True),
                 keep=keep, new=new)
        if keep:
            self.kept[new] = res
        return res

    def close(self):
        rec().ev("heap", objs=self.digests() + [dict(id=k, dg=dg(o, True)) for k, o in self.kept.items()])
        rec().end()


def euler(n, rng):
    """a sequence in which every ordered pair (also equal ones) of 0..n-1 occurs next to each other"""
    todo = [list(range(n)) for _ in range(n)]
    for t in todo:
        rng.shuffle(t)
    path, stack = [], [0]
    while stack:
        if todo[stack[-1]]:
            stack.append(todo[stack[-1]].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


FDT = [float, float, float, np.float32, int]


def fortran(o):
    """the same values, stored column by column"""
    if isinstance(o, np.ndarray):
        return np.asfortranarray(o)
    if isinstance(o, tuple):
        return tuple(fortran(a) for a in o)
    if isinstance(o, list):
        return [fortran(a) for a in o]
    return o


def strip(o):
    """the same values as every other entry of a larger array"""
    if isinstance(o, np.ndarray) and o.ndim:
        big = np.zeros(o.shape[:-1] + (2 * o.shape[-1],), dtype=o.dtype)
        big[..., ::2] = o
        return big[..., ::2]
    if isinstance(o, tuple):
        return tuple(strip(a) for a in o)
    if isinstance(o, list):
        return [strip(a) for a in o]
    return o


def exact_labels(m):
    return m["kind"] in ("binary", "multiclass", "multilabel")


def models_world(g, kind, i):
    r = g.r
    m = g.model(kind)
    forest = r.random() < .6
    xs = [g.instance(m, forest=forest, maxlab=100) for _ in range(2)]
    hs = [g.labeling(m, x) for x in xs]
    hs2 = [g.labeling(m, x) for x in xs]
    isf = all(pv.forest_inst(m, x) for x in xs)
    unstructured = kind in ("binary", "multiclass")
    if kind == "typed":
        method = r.choice(["ad3", "ad3+"])
    elif unstructured:
        method = None
    else:
        method = r.choice([None, "ad3", EXACT, "lp", "max-product"] + (["max-product"] if isf else []))
    if isinstance(method, tuple):
        method = (method[0], dict(method[1]))
    fdt = r.choice(FDT) if kind not in ("multiclass",) else float
    mem = r.choice([lambda o: o, lambda o: o, fortran, strip])
    X = [mem(px(m, x, fdtype=fdt, edtype=r.choice([int, np.int32]))) for x in xs]
    H = [py(m, x, h) for x, h in zip(xs, hs)]
    H2 = [py(m, x, h) for x, h in zip(xs, hs2)]
    if unstructured:
        X, H, H2 = np.array(X), np.array(H), np.array(H2)
    lat = kind in LATK
    Y = [py(m, dict(x, n=x["nv"]) if kind in ("lnode", "eflnode") else x, g.visible(m, x, h))
         for x, h in zip(xs, hs)] if lat else H
    W = [strip(wvec(m, g.weights(m))) if r.random() < .2 else wvec(m, g.weights(m)) for _ in range(2)]
    w_ = World("model-%s-%d" % (kind, i))
    opts = dict(method=method)
    with call("build", m=m):
        for k in ("sym", "anti", "spl", "cw", "edges", "tS", "tF", "tFE"):
            opts[k] = m[k]
        if kind == "multilabel":
            from pystruct import models as M
            opts["edges"] = np.array(m["edges"], dtype=int).reshape(-1, 2)
            model = M.MultiLabelClf(n_labels=m["L"], n_features=m["F"], edges=opts["edges"], inference_method=method)
        elif kind in ("graph", "chain") and m["cwgiven"]:
            from pystruct import models as M
            opts["cw"] = np.array(m["cw"]) / float(m["D"])
            cls = M.GraphCRF if kind == "graph" else M.ChainCRF
            model = cls(n_states=m["S"], n_features=m["F"], inference_method=method, class_weight=opts["cw"],
                        directed=m["directed"])
        else:
            model = build(m, method)
    if not rec().cur["evs"]:
        w_.own(X=X, H=H, H2=H2, Y=Y, w0=W[0], w1=W[1], opts=opts)
    else:
        rec().end()
        return
    relaxable = (not exact_labels(m) or kind == "multilabel") and method not in ("max-product", "unary")
    ops = []

    def add(name, fun, keep=False):
        ops.append((name, fun, keep))

    for k in range(2):
        for j in range(2):
            add("inference x%d w%d" % (k, j), lambda k=k, j=j: model.inference(X[k], W[j]), k == j)
            add("loss_augmented_inference x%d w%d" % (k, j),
                lambda k=k, j=j: model.loss_augmented_inference(X[k], H[k], W[j]), k != j)
        add("joint_feature x%d" % k, lambda k=k: model.joint_feature(X[k], H[k]), True)
        add("loss %d" % k, lambda k=k: model.loss(H[k], H2[k]))
    add("max_loss", lambda: model.max_loss(H[0]))
    if relaxable:
        add("relaxed x0", lambda: model.inference(X[0], W[0], relaxed=True), True)
        add("relaxed augmented x0", lambda: model.loss_augmented_inference(X[0], H[0], W[1], relaxed=True), True)
        if kind != "multilabel":
            add("energy x1", lambda: model.inference(X[1], W[0], relaxed=True, return_energy=True))
        if kind != "typed":
            mu = model.inference(X[0], W[1], relaxed=True)
            if isinstance(mu, tuple):
                w_.own(mu=mu)
                add("joint_feature of marginals", lambda: model.joint_feature(X[0], mu), True)
                add("loss of marginals", lambda: model.loss(H[0], mu))
    add("batch_inference", lambda: model.batch_inference(X, W[0]), True)
    add("batch_loss_augmented_inference", lambda: model.batch_loss_augmented_inference(X, H, W[1]), True)
    add("batch_joint_feature", lambda: model.batch_joint_feature(X, H))
    add("batch_loss", lambda: list(np.ravel(model.batch_loss(H, H2))))
    if lat:
        add("latent", lambda: model.latent(X[0], Y[0], W[0]), True)
        add("latent other", lambda: model.latent(X[1], Y[1], W[1]))
        add("label_from_latent", lambda: model.label_from_latent(H[0]), True)
        add("base_loss", lambda: model.base_loss(Y[0], model.label_from_latent(H2[0])))
    else:
        from pystruct.utils import find_constraint
        add("find_constraint", lambda: find_constraint(model, X[0], H[0], W[0], relaxed=bool(relaxable)))
    # initialize again, where the two samples have all labels
    flat = [v for x, h in zip(xs, hs) for v in g.visible(m, x, h)]
    if kind not in ("typed", "multilabel", "binary") and len(set(flat)) == (m["L"] if lat else m["S"]):
        add("initialize", lambda: model.initialize(X, Y))
    for k in euler(len(ops), r):
        w_.op(*ops[k])
    w_.close()


# ------------------------------------------------------------------ the solvers and helpers themselves
def raw_world(g, i):
    from pystruct.inference import inference_dispatch, compute_energy, inference_ad3plus
    from pystruct import utils as U
    r = g.r
    n, S = r.randint(1, 4), r.randint(2, 3)
    dt = r.choice([float, float, float, np.float32])
    mem = r.choice([lambda o: o, lambda o: o, fortran, strip])
    es = r.choice([g.forest(n), g.graph(n), [[k, k + 1] for k in range(n - 1)]])
    isf = pv.is_forest(n, es)
    w_ = World("raw-%d" % i)
    un = mem(np.array(g.mat(n, S, -5, 5), dtype=dt))
    shared = mem(np.array(g.mat(S, S, -3, 3), dtype=dt))
    pw = mem(np.array([g.mat(S, S, -3, 3) for _ in es], dtype=dt).reshape(-1, S, S))
    E = mem(np.array(es, dtype=r.choice([int, np.int64, np.int32])).reshape(-1, 2))
    zero = np.zeros((S, S))
    opt = {"branch_and_bound": True}
    lab = np.array(g.labeling({"kind": "graph", "S": S}, {"n": n}))
    sym = np.array(g.ints(S * (S + 1) // 2), dtype=float)
    grid = np.array(g.ints(12), dtype=float).reshape(2, 3, 2)
    w_.own(un=un, shared=shared, pw=pw, E=E, zero=zero, opt=opt, lab=lab, sym=sym, grid=grid)
    ops = []
    double = dt is float
    for name in ["max-product", "ad3", "lp", ("ad3", opt), "ad3+", "unary"]:
        for pn, P in (("shared", shared), ("own", pw)):
            if name == "unary":
                P = zero
            if not double and name in ("max-product", "lp"):      # double precision only
                continue
            if name == "ad3+" and pn == "own":                    # several types
                ops.append(("ad3+ types", lambda: inference_dispatch([un], [pw], [E], "ad3+", relaxed=False), True))
                ops.append(("ad3+ types relaxed", lambda: inference_dispatch([un], [pw], [E], "ad3+", relaxed=True), True))
            ops.append(("%s %s" % (name, pn), lambda name=name, P=P: inference_dispatch(un, P, E, name), True))
            ops.append(("%s %s energy" % (name, pn),
                        lambda name=name, P=P: inference_dispatch(un, P, E, name, return_energy=True), False))
            if name in ("ad3", "lp", "ad3+"):
                ops.append(("%s %s relaxed" % (name, pn),
                            lambda name=name, P=P: inference_dispatch(un, P, E, name, relaxed=True), True))
    ops.append(("compute_energy", lambda: compute_energy(un, shared, E, lab), False))
    ops.append(("compute_energy own", lambda: compute_energy(un, pw, E, lab), False))
    ops.append(("expand_sym", lambda: U.expand_sym(sym), True))
    ops.append(("compress_sym", lambda: U.compress_sym(shared), True))
    ops.append(("compress_sym as is", lambda: U.compress_sym(shared, make_symmetric=False), True))
    ops.append(("make_grid_edges", lambda: U.make_grid_edges(grid, 8), True))
    ops.append(("make_grid_edges lists", lambda: U.make_grid_edges(grid, 4, return_lists=True), True))
    ops.append(("edge_list_to_features",
                lambda: U.edge_list_to_features(U.make_grid_edges(grid, 4, return_lists=True)), True))
    for k in euler(len(ops), r):
        w_.op(*ops[k])
    w_.close()


# ------------------------------------------------------------------ learners
def learner_world(g, i, latent=False):
    from pystruct import learners as L
    from pystruct import utils as U
    r = g.r
    if latent:
        P = latent_problem(g, 3)
    else:
        P = problem(g, r.choice(["multiclass", "rescale", "chain", "binary", "multilabel", "graph", "edgefeat", "grid", "loopy"]),
                    n=r.randint(3, 4), lo=-4, hi=4)
    X, Y = P.data()
    arrays = isinstance(X, np.ndarray)
    if not arrays and r.random() < .3 and not latent:
        X, Y = list(X), tuple(Y)
    w_ = World("learn-%s-%d" % (P.m["kind"], i))
    H = None
    if latent:
        H = []
        for x, y in zip(P.xs, P.ys):
            while True:
                h = g.labeling(P.m, x)
                if g.visible(P.m, x, h) == y:
                    break
            H.append(py(P.m, x, h))
    method = (P.method[0], dict(P.method[1])) if isinstance(P.method, tuple) else P.method
    model = build(P.m, method)
    w_.own(X=X, Y=Y, H=H, m=P.m, method=method)
    C = P.C
    mk = {
        "n": lambda mod: L.NSlackSSVM(mod, C=C, max_iter=20, show_loss_every=2),
        "1": lambda mod: L.OneSlackSSVM(mod, C=C, max_iter=20, inference_cache=2, show_loss_every=3),
        "sub": lambda mod: L.SubgradientSSVM(mod, C=C, max_iter=3, learning_rate=.125, show_loss_every=1),
        "sub-batch": lambda mod: L.SubgradientSSVM(mod, C=C, max_iter=3, batch_size=-1, averaging="linear"),
        "sub-two": lambda mod: L.SubgradientSSVM(mod, C=C, max_iter=3, batch_size=2, momentum=.5, averaging="squared"),
        "sub-shuffle": lambda mod: L.SubgradientSSVM(mod, C=C, max_iter=3, shuffle=True),
        "fw": lambda mod: L.FrankWolfeSSVM(mod, C=C, max_iter=3, batch_mode=True, check_dual_every=1),
        "fw-perm": lambda mod: L.FrankWolfeSSVM(mod, C=C, max_iter=3, random_state=3),
        "fw-rnd": lambda mod: L.FrankWolfeSSVM(mod, C=C, max_iter=3, sample_method="rnd", random_state=1, do_averaging=False),
        "perc": lambda mod: L.StructuredPerceptron(mod, max_iter=3, average=True),
        "perc-batch": lambda mod: L.StructuredPerceptron(mod, max_iter=3, batch=True, average=1),
    }
    if P.m["rescale"]:
        mk = {k: v for k, v in mk.items() if not k.startswith(("perc", "sub"))}
    if latent:
        mk = {"latsub": lambda mod: L.SubgradientLatentSSVM(mod, C=C, max_iter=3, learning_rate=.125),
              "latsub-avg": lambda mod: L.SubgradientLatentSSVM(mod, C=C, max_iter=3, averaging="linear"),
              "lat-n": lambda mod: L.LatentSSVM(L.NSlackSSVM(mod, C=C, max_iter=20), latent_iter=3),
              "lat-1": lambda mod: L.LatentSSVM(L.OneSlackSSVM(mod, C=C, max_iter=20, inference_cache=2), latent_iter=3),
              "lat-sub": lambda mod: L.LatentSSVM(L.SubgradientSSVM(mod, C=C, max_iter=3), latent_iter=2)}
    names = sorted(mk)
    r.shuffle(names)
    names = names[:scale(5, 7)]
    ops = []

    def fit(name):
        lrn = mk[name](model if r.random() < .7 else build(P.m, method))
        if latent:
            if name.startswith("latsub"):
                lrn.w = np.zeros(model.size_joint_feature)
            lrn.fit(X, Y, H_init=H)
            own = lrn if name.startswith("latsub") else lrn.base_ssvm
        else:
            lrn.fit(X, Y)
            own = lrn
        fitted.append((lrn, name))
        out = [own.w]
        for c in ("objective_curve_", "primal_objective_curve_", "loss_curve_"):
            if hasattr(own, c):
                out.append(getattr(own, c))
        return out

    fitted = []
    for name in names:
        ops.append(("fit " + name, lambda name=name: fit(name), True))
    seq = euler(len(ops), r)
    for k in seq:
        w_.op(*ops[k])
        if fitted and r.random() < .6:
            lrn, nm = r.choice(fitted[-3:])
            w_.op("predict " + nm, lambda: lrn.predict(X), True)
            w_.op("score " + nm, lambda: lrn.score(X, Y))
            if latent:
                w_.op("predict_latent " + nm, lambda: lrn.predict_latent(X), True)
    if fitted and not latent:
        lrn, nm = fitted[-1]
        wv = np.array(lrn.w, float)
        w_.own(wv=wv)
        w_.op("objective_primal", lambda: U.objective_primal(model, wv, X, Y, C))
        w_.op("objective_primal again", lambda: U.objective_primal(model, wv, X, Y, C))
    w_.close()


def c22():
    g = Gen(pv.SEED * 1000 + 22)
    for kind in KINDS:
        for i in range(scale(2, 12)):
            models_world(g, kind, i)
    for i in range(scale(6, 60)):
        raw_world(g, i)
    for i in range(scale(10, 80)):
        learner_world(g, i)
    for i in range(scale(4, 30)):
        learner_world(g, i, latent=True)
