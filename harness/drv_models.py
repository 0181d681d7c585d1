"""C01-C06, C08: the meaning of the models, and inference"""
import numpy as np

import pv
from pv import (Gen, KINDS, build, call, exact, fx, ints, mk, px, py, rec, scale, wvec)


def _compute_energy(model, px_, w, y):
    """the energy of y under the potentials inference uses (None: not exposed)"""
    from pystruct.inference import compute_energy
    if not (hasattr(model, "_get_unary_potentials") and hasattr(model, "_get_pairwise_potentials")
            and hasattr(model, "_get_edges")):
        return None
    u = model._get_unary_potentials(px_, w)
    if isinstance(u, list):
        return None
    return compute_energy(u.reshape(-1, u.shape[-1]), model._get_pairwise_potentials(px_, w),
                          model._get_edges(px_), np.asarray(y).ravel())


def edge_insts(g, kind):
    """boundary instances of a kind: single nodes, no edges, 1xN grids, ..."""
    out = []
    if kind in ("graph", "edgefeat", "lgraph"):
        for n in (1, 2, 3):
            m = g.model(kind)
            x = g.instance(m, n=n)
            x["edges"], x["ef"] = [], []
            out.append((m, x))
        m = g.model(kind)                       # repeated and antiparallel edges, self loops
        x = g.instance(m, n=3)
        x["edges"] = [[0, 1], [1, 0], [0, 1], [2, 1]]
        x["ef"] = g.mat(4, m["FE"], -2, 2) if m["pair"] == "ef" else []
        out.append((m, x))
        if kind != "lgraph":
            m = g.model(kind, S=1, cw=[], sym=[], anti=[])
            out.append((m, g.instance(m, n=3)))
    if kind == "chain":
        for n in (1, 2):
            m = g.model(kind)
            out.append((m, g.instance(m, n=n)))
    if kind in pv.GRIDK:
        for sh in ([1, 1], [1, 3], [3, 1], [2, 2], [2, 3], [3, 2]):
            for nb in (4, 8):
                m = g.model(kind, nb=nb)
                out.append((m, g.instance(m, shape=sh)))
    if kind == "multilabel":
        m = g.model(kind, L=2, edges=[])
        out.append((m, g.instance(m)))
        m = g.model(kind, L=3, edges=[[0, 1], [1, 2], [0, 2]])
        out.append((m, g.instance(m)))
        m = g.model(kind, L=3, edges=[[2, 0], [1, 0]])
        out.append((m, g.instance(m)))
    if kind == "edgefeat":
        for fe, s, a in ((1, [0], []), (1, [], [0]), (3, [2], [0]), (2, [0, 1], []), (3, [0], [1, 2])):
            m = g.model(kind, FE=fe, sym=s, anti=a)
            out.append((m, g.instance(m, n=3)))
    return out


def sweep(g, quick, thorough, kinds=KINDS, **kw):
    for kind in kinds:
        for m, x in edge_insts(g, kind):
            yield m, x
        for i in range(scale(quick, thorough)):
            m = g.model(kind)
            yield m, g.instance(m, **kw)


def bigs(g, quick, thorough, kinds=KINDS):
    """large instances, with weights and an order of elimination"""
    r = g.r
    for kind in kinds:
        if kind in ("binary", "multiclass"):
            continue
        for i in range(scale(quick, thorough)):
            m = g.model(kind, **(dict(L=r.choice([8, 12]), edges=[]) if kind == "multilabel" else {}))
            if kind == "multilabel":
                m = mk("multilabel", L=m["L"], F=m["F"], D=m["D"], edges=g.forest(m["L"], .9))
            x = g.big(m)
            w = g.weights(m, *r.choice([(-3, 3), (-1, 1), (-2, 0), (0, 2)]))
            if kind == "eflnode":
                w = [max(-2, min(2, a)) for a in w]
            yield kind, i, m, x, w, pv.order(x["n"], pv.flat_edges(m, x))


# ------------------------------------------------------------------ C01
def c01():
    g = Gen(pv.SEED * 1000 + 1)
    dts = [int, np.int64, np.int32, np.int8, np.uint8]
    # many states, where labels fit into a byte but pairs of them do not
    wide = [(m, g.instance(m, n=3)) for m in
            [g.model("edgefeat", S=20, F=1, FE=1, sym=[], anti=[]), g.model("graph", S=20, F=1, cw=[]),
             g.model("chain", S=20, F=1, cw=[])]]
    m = g.model("typed", T=2, tS=[17, 3], tF=[1, 1], tFE=[1, 1, 1, 1], cw=[])
    wide.append((m, g.instance(m, maxlab=90000)))
    for i, (m, x) in enumerate(wide + list(sweep(g, 14, 120))):
        rec().trace("jf-%s-%d" % (m["kind"], i))
        with call("joint_feature", m=m, x=x):
            model = build(m)
            X = px(m, x, fdtype=g.r.choice([float, float, int, np.int8, np.float32]))
            size = int(model.size_joint_feature)
            for j in range(6 if m["S"] > 10 else 3):
                y = g.labeling(m, x)
                jf = model.joint_feature(X, py(m, x, y, g.r.choice(dts[:4] if m["kind"] == "binary" else dts)))
                rec().ev("jf", m=m, x=x, y=y, jf=exact(jf, m["ps"]), size=size)
            if m["kind"] in ("multiclass", "binary"):
                continue
            for j in range(2):
                w = g.weights(m)
                y = g.labeling(m, x)
                W = wvec(m, w)
                e = _compute_energy(model, X, W, y) if m["kind"] not in ("typed",) else None
                dot = np.dot(W, model.joint_feature(X, py(m, x, y)))
                s = m["D"] * m["ps"]
                rec().ev("score", m=m, x=x, w=w, y=y, dot=exact(dot, s),
                         pot=exact(e if e is not None else dot, s))
    # maximal score as reported by an exact solver: the potentials of all kinds
    for kind in KINDS:
        if kind in ("binary", "multiclass"):
            continue
        for i in range(scale(6, 40)):
            m = g.model(kind)
            x = g.instance(m, maxlab=150)
            w = g.weights(m)
            rec().trace("energy-%s-%d" % (kind, i))
            with call("inference energy", m=m, x=x, w=w):
                model = build(m, ("ad3", {"branch_and_bound": True}) if kind != "typed" else "ad3")
                if kind == "typed":
                    # the typed model takes the method name only; exact on forests
                    x = g.instance(m, maxlab=150, forest=True)
                _, en = model.inference(px(m, x), wvec(m, w), relaxed=kind == "typed", return_energy=True)
                rec().ev("energy", m=m, x=x, w=w, val=fx(-en * m["D"] * m["ps"], 100), K=100, tol=40)
    # batches
    for kind in KINDS:
        for i in range(scale(3, 20)):
            m = g.model(kind)
            xs = [g.instance(m) for _ in range(g.r.randint(1, 4))]
            ys = [g.labeling(m, x) for x in xs]
            rec().trace("batch-%s-%d" % (kind, i))
            with call("batch_joint_feature", m=m):
                model = build(m)
                X = [px(m, x) for x in xs]
                Y = [py(m, x, y) for x, y in zip(xs, ys)]
                if kind in ("multiclass", "binary"):
                    X, Y = np.array(X), pv.stack_y(m, Y)
                rec().ev("bjf", m=m, xs=xs, ys=ys, jf=exact(model.batch_joint_feature(X, Y), m["ps"]))
                rec().ev("bjf", m=m, xs=xs, ys=ys, jf=exact(model.batch_joint_feature(X, Y, Y), m["ps"]))
    # loss-rescaled multi-class
    for i in range(scale(25, 200)):
        m = g.model("multiclass", rescale=True)
        n = g.r.randint(1, 4)
        xs = [g.instance(m) for _ in range(n)]
        ys = [g.labeling(m, x) for x in xs]
        yts = [g.labeling(m, x) for x in xs]
        rec().trace("rescale-%d" % i)
        with call("rescaled joint_feature", m=m):
            model = build(m)
            X, Y, YT = np.array([px(m, x) for x in xs]), pv.stack_y(m, np.array(ys)[:, 0]), pv.stack_y(m, np.array(yts)[:, 0])
            for k in range(n):
                rec().ev("jfr", m=m, x=xs[k], y=ys[k], ytrue=yts[k],
                         jf=exact(model.joint_feature(X[k], Y[k], YT[k]), m["D"]))
            rec().ev("bjfr", m=m, xs=xs, ys=ys, yts=yts,
                     jf=exact(model.batch_joint_feature(X, Y, YT), m["D"]))
    # the difference vectors learners are given
    from pystruct.utils import find_constraint
    for kind in KINDS:
        for i in range(scale(3, 15)):
            m = g.model(kind)
            x = g.instance(m)
            y, yh, w = g.labeling(m, x), g.labeling(m, x), g.weights(m)
            rec().trace("djf-%s-%d" % (kind, i))
            with call("find_constraint", m=m, x=x):
                model = build(m)
                _, d, _, _ = find_constraint(model, px(m, x), py(m, x, y), wvec(m, w), py(m, x, yh))
                rec().ev("djf", m=m, x=x, y=y, yh=yh, djf=exact(d, m["ps"]))


# ------------------------------------------------------------------ C02
def _mu_nu(m, x, ys, dens=None):
    """K-scaled marginals of the mixture of the labelings ys (K = len(ys))"""
    def blocks(y):
        if m["kind"] == "typed":
            T, off = m["T"], [sum(x["tn"][:t]) for t in range(m["T"])]
            so = [sum(m["tS"][:t]) for t in range(T)]
            mu = [np.eye(m["tS"][t], dtype=int)[[y[off[t] + k] - so[t] for k in range(x["tn"][t])]]
                  if x["tn"][t] else np.zeros((0, m["tS"][t]), int) for t in range(T)]
            nu = []
            for b in range(T * T):
                s1, s2 = m["tS"][b // T], m["tS"][b % T]
                a = np.zeros((len(x["tedges"][b]), s1 * s2), int)
                for i, (p, q) in enumerate(x["tedges"][b]):
                    a[i, (y[off[b // T] + p] - so[b // T]) * s2 + y[off[b % T] + q] - so[b % T]] = 1
                nu.append(a)
            return mu, nu
        S, es = m["S"], pv.flat_edges(m, x)
        mu = np.eye(S, dtype=int)[list(y)]
        nu = np.zeros((len(es), S * S), int)
        for i, (p, q) in enumerate(es):
            nu[i, y[p] * S + y[q]] = 1
        return mu, nu
    bs = [blocks(y) for y in ys]
    if m["kind"] == "typed":
        return ([sum(b[0][t] for b in bs) for t in range(m["T"])],
                [sum(b[1][t] for b in bs) for t in range(m["T"] ** 2)])
    return sum(b[0] for b in bs), sum(b[1] for b in bs)


def _rel_arg(m, x, mu, nu, K):
    """the tuple pystruct takes"""
    if m["kind"] == "typed":
        return ([a / float(K) for a in mu], [a / float(K) for a in nu])
    a = mu / float(K)
    if m["kind"] in pv.GRIDK:
        a = a.reshape(x["shape"] + [m["S"]])
    return (a, nu / float(K))


def _typed_dense(m, x, mu, nu, K):
    T = m["T"]
    u = np.zeros((sum(x["tn"]), sum(m["tS"])))
    i = j = 0
    for t in range(T):
        u[i:i + x["tn"][t], j:j + m["tS"][t]] = mu[t] / float(K)
        i, j = i + x["tn"][t], j + m["tS"][t]
    sizes = [m["tS"][b // T] * m["tS"][b % T] for b in range(T * T)]
    p = np.zeros((sum(len(a) for a in nu), sum(sizes)))
    i = j = 0
    for b in range(T * T):
        p[i:i + len(nu[b]), j:j + sizes[b]] = nu[b] / float(K)
        i, j = i + len(nu[b]), j + sizes[b]
    return (u, p)


RELKINDS = [k for k in KINDS if k not in ("binary", "multiclass")]


def c02():
    g = Gen(pv.SEED * 1000 + 2)
    for i, (m, x) in enumerate(sweep(g, 14, 120, kinds=RELKINDS)):
        rec().trace("rel-%s-%d" % (m["kind"], i))
        with call("relaxed joint_feature and loss", m=m, x=x):
            model = build(m)
            X = px(m, x)
            y = g.labeling(m, x)
            mu, nu = _mu_nu(m, x, [y])
            arg = _rel_arg(m, x, mu, nu, 1)
            rec().ev("ind", m=m, x=x, y=y, mu=mu, nu=nu, jf=exact(model.joint_feature(X, arg), m["ps"]))
            if m["kind"] == "typed":
                rec().ev("ind", m=m, x=x, y=y, mu=mu, nu=nu,
                         jf=exact(model.joint_feature(X, _typed_dense(m, x, mu, nu, 1)), m["ps"]))
            y2 = g.labeling(m, x)
            Y2 = py(m, x, y2)
            # the true labeling is y2, the marginals are those of y
            rec().ev("lossind", m=m, x=x, y=y2, yh=y, val=exact(model.continuous_loss(Y2, arg[0]), m["D"]))
            rec().ev("lossind", m=m, x=x, y=y2, yh=y, val=exact(model.loss(Y2, arg), m["D"]))
            for K in (2, 4):
                ys = [g.labeling(m, x) for _ in range(K)]
                mu, nu = _mu_nu(m, x, ys)
                arg = _rel_arg(m, x, mu, nu, K)
                rec().ev("jfrel", m=m, x=x, mu=mu, nu=nu, jf=exact(model.joint_feature(X, arg), m["ps"] * K))
                rec().ev("lossrel", m=m, x=x, y=y2, mu=mu, K=K,
                         val=exact(model.continuous_loss(Y2, arg[0]), m["D"] * K))
                rec().ev("lossrel", m=m, x=x, y=y2, mu=mu, K=K, val=exact(model.loss(Y2, arg), m["D"] * K))
            # node and edge marginals that are not the same mixture (still linear)
            mu, _ = _mu_nu(m, x, [g.labeling(m, x) for _ in range(4)])
            _, nu = _mu_nu(m, x, [g.labeling(m, x) for _ in range(4)])
            arg = _rel_arg(m, x, mu, nu, 4)
            rec().ev("jfrel", m=m, x=x, mu=mu, nu=nu, jf=exact(model.joint_feature(X, arg), m["ps"] * 4))


# ------------------------------------------------------------------ C03
EXACT = ("ad3", {"branch_and_bound": True})


def _arrs(u, pw, edges, full=True):
    S = len(u[0])
    U = np.array(u, dtype=float).reshape(-1, S)
    E = np.array(edges, dtype=int).reshape(-1, 2)
    if not full:
        return U, np.array(pw, dtype=float).reshape(S, S), E
    return U, np.array(pw, dtype=float).reshape(-1, S, S), E


def _raw(g, n, S, edges, lo, hi, shared):
    u = g.mat(n, S, lo, hi)
    if shared:
        one = g.ints(S * S, lo, hi)
        return u, [one] * len(edges), one
    pw = g.mat(len(edges), S * S, lo, hi)
    return u, pw, pw


def _all_forests(n):
    import itertools
    und = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for k in range(n):
        for es in itertools.combinations(und, k):
            if pv.is_forest(n, es):
                yield [list(e) for e in es]


def c03():
    from pystruct.inference import inference_dispatch, compute_energy
    g = Gen(pv.SEED * 1000 + 3)
    r = g.r

    def raw(id_, n, S, edges, method, exact_, lo=-2, hi=2, shared=None, large=False):
        kw = dict(order=pv.order(n, edges)) if large else {}
        shared = r.random() < .3 if shared is None else shared
        u, pw, arg = _raw(g, n, S, edges, lo, hi, shared)
        rec().trace(id_)
        # the maximizers do not change if all potentials are multiplied
        k = r.choice([1., 1., 2. ** -20, 2. ** 10, 2. ** 22, 2. ** 40]) if method in ("max-product", "unary") else 1.
        with call("inference_dispatch " + str(method), u=u, pw=pw, edges=edges, k=str(k)):
            U, P, E = _arrs(u, arg, edges, not shared)
            y = inference_dispatch(U * k, P * k, E, method)
            rec().ev("raw", u=u, pw=pw, edges=edges, y=ints(y), exact=exact_, method=str(method), **kw)
            if r.random() < .2:
                z = [r.randrange(S) for _ in range(n)]
                rec().ev("ce", u=u, pw=pw, edges=edges, y=z,
                         val=exact(compute_energy(U, P, E, np.array(z))))

    # every forest on up to four nodes: every orientation, several orders
    i = 0
    for n in range(1, 5):
        for es in _all_forests(n):
            for mask in range(2 ** len(es)):
                o = [e[::-1] if mask >> k & 1 else e for k, e in enumerate(es)]
                r.shuffle(o)
                S = 2 if n == 4 else r.choice([2, 3])
                lo, hi = r.choice([(0, 1), (-2, 2), (-9, -1), (-5, 5)])
                raw("forest-%d" % i, n, S, o, "max-product", True, lo, hi)
                i += 1
    for i in range(scale(250, 4000)):
        n = r.randint(1, 7)
        S = {1: 4, 2: 4, 3: 4, 4: 4, 5: 3, 6: 2, 7: 2}[n]
        lo, hi = r.choice([(0, 1), (-1, 1), (-2, 2), (-9, 9)])
        raw("tree-%d" % i, n, S, g.forest(n, r.choice([0., .5, .8, 1.])), "max-product", True, lo, hi)
    # chains in the plain order (Viterbi), also with S = 1 and very different scales
    for i in range(scale(80, 800)):
        n = r.randint(1, 7)
        S = r.randint(1, {1: 5, 2: 5, 3: 5, 4: 4, 5: 3, 6: 2, 7: 2}[n])
        lo, hi = r.choice([(0, 1), (-1, 1), (-9, 9), (-1000, 1000), (-30, -20)])
        raw("chain-%d" % i, n, S, [[k, k + 1] for k in range(n - 1)], "max-product", True, lo, hi)
    # not chains, but close: repeated edges, too few edges, cycles
    for i in range(scale(60, 600)):
        n = r.randint(2, 4)
        es = [[k, k + 1] for k in range(n - 1)]
        c = r.randrange(3)
        if c == 0:
            es = es[:-1]
        elif c == 1:
            es = es[1:] + ([[n - 1, 0]] if r.random() < .3 and n > 2 else [])
        else:
            es = list(reversed(es))
        raw("near-chain-%d" % i, n, 2, es, "max-product", pv.is_forest(n, es), -3, 3)
    for i in range(scale(40, 300)):         # parallel edges: not a forest, labeling still legal
        n = r.randint(2, 4)
        es = g.forest(n, 1.)
        es.insert(r.randrange(len(es) + 1), list(r.choice(es))[::r.choice([1, -1])])
        raw("parallel-%d" % i, n, 2, es, "max-product", False, -3, 3)
        raw("parallel-bnb-%d" % i, n, 2, es, EXACT, True, -3, 3)
    # unary only
    for i in range(scale(30, 200)):
        n = r.randint(1, 5)
        raw("unary-%d" % i, n, r.randint(1, 4), [], r.choice(["unary", "max-product", "lp", "ad3", EXACT]),
            True, 0, 9, shared=r.random() < .5)
    # branch and bound on any graph
    for i in range(scale(120, 1500)):
        n = r.randint(1, 5)
        lo, hi = r.choice([(0, 1), (-2, 2), (-9, 9)])
        raw("bnb-%d" % i, n, {1: 3, 2: 3, 3: 3, 4: 3, 5: 2}[n], g.graph(n, .7), EXACT, True, lo, hi)
    # the relaxations on forests (decided where the optimum is unique)
    for i in range(scale(100, 1000)):
        n = r.randint(1, 5)
        es = g.forest(n, .9)
        S = {1: 3, 2: 3, 3: 3, 4: 3, 5: 2}[n]
        u, pw, _ = _raw(g, n, S, es, -9, 9, False)
        rec().trace("relaxation-%d" % i)
        for method in ("lp", "ad3"):
            with call("inference_dispatch " + method, u=u, pw=pw, edges=es):
                y = inference_dispatch(*_arrs(u, pw, es), inference_method=method)
                rec().ev("rawu", u=u, pw=pw, edges=es, y=ints(y), method=method)
    # through the models
    for kind in KINDS:
        for i in range(scale(14, 150)):
            m = g.model(kind)
            forest = r.random() < .6
            x = g.instance(m, forest=forest or kind == "typed", maxlab=200)
            w = g.weights(m, *r.choice([(-4, 4), (-1, 1), (0, 0)]))
            isf = pv.forest_inst(m, x)
            if kind == "typed":
                methods = ["ad3"]
            elif kind in ("binary", "multiclass"):
                methods = [None]
            else:
                methods = [EXACT] + (["max-product", "lp"] if isf else [])
                if not pv.flat_edges(m, x):
                    methods.append("unary")
            rec().trace("model-%s-%d" % (kind, i))
            for method in methods:
                if kind == "eflnode":
                    w = [max(-2, min(2, a)) for a in w]
                k = 2. ** r.choice([0, 0, 4, 7] + ([10, 24] if method == "max-product" else []))
                with call("inference %s" % (method,), m=m, x=x, w=w, k=str(k)):
                    model = build(m, method)
                    y = model.inference(px(m, x), k * wvec(m, w))
                    ex = "unique" if method in ("lp", "ad3") else "always"
                    rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact=ex, method=str(method))
    # what the wrappers of the optional libraries hand over (standins.py)
    from standins import ALGS, Libraries
    for i in range(scale(80, 800)):
        n = r.randint(1, 4)
        S = r.randint(1, 3)
        es = g.graph(n, .8)
        shared = r.random() < .3
        lo, hi = r.choice([(0, 1), (-2, 2), (-9, 9)])
        u, pw, arg = _raw(g, n, S, es, lo, hi, shared)
        rec().trace("libraries-%d" % i)
        z = [r.randrange(S) for _ in range(n)]
        U, P, E = _arrs(u, arg, es, not shared)
        k = r.choice([1., .125, .03125])        # the library of the first takes whole numbers
        U, P = U * k, P * k
        alg = r.choice(sorted(ALGS))
        with call("stand-in libraries", u=u, pw=pw, edges=es), Libraries(i % 2) as lib:
            for method in ("qpbo", ("ogm", {"alg": alg}), "ogm"):
                y = inference_dispatch(U, P, E, method)
                rec().ev("raw", u=u, pw=pw, edges=es, y=ints(y), exact=True, method=str(method))
                y, en = inference_dispatch(U, P, E, method, return_energy=True)
                rec().ev("raw", u=u, pw=pw, edges=es, y=ints(y), exact=True, method=str(method))
                rec().ev("ce", u=u, pw=pw, edges=es, y=ints(y), val=exact(-en / k))
            rec().ev("eq", a=lib.algs, b=[alg, alg, "dd", "dd"])
    for kind in KINDS:
        if kind in ("binary", "multiclass", "typed"):
            continue
        for i in range(scale(4, 40)):
            m = g.model(kind)
            x = g.instance(m, forest=False, maxlab=100)
            w = g.weights(m, -3, 3)
            if kind == "eflnode":
                w = [max(-2, min(2, a)) for a in w]
            rec().trace("libraries-%s-%d" % (kind, i))
            with call("stand-in libraries", m=m, x=x, w=w), Libraries(i % 2):
                for method in ("qpbo", "ogm"):
                    y = build(m, method).inference(px(m, x), wvec(m, w))
                    rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact="always", method=method)
    # large instances
    for i in range(scale(25, 250)):
        n, S = r.choice([15, 30, 60, 100]), r.choice([2, 2, 3, 5])
        es = g.big(mk("graph", S=S, F=1), n)["edges"] if i % 3 else [[k, k + 1] for k in range(n - 1)]
        raw("large-%d" % i, n, S, es, "max-product", True, *r.choice([(0, 1), (-9, 9)]), large=True)
    for kind, i, m, x, w, order in bigs(g, 5, 50):
        isf = pv.forest_inst(m, x)
        methods = ["ad3"] if kind == "typed" else [EXACT] + (["max-product", "lp"] if isf else [])
        rec().trace("large-model-%s-%d" % (kind, i))
        for method in methods:
            with call("inference %s" % (method,), m=m, x=x, w=w):
                pv.status()
                y = build(m, method).inference(px(m, x), wvec(m, w))
                rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact="unique" if method in ("lp", "ad3") else "always",
                         method=str(method), order=order, status=pv.status())
    # batch prediction of the unstructured models, with ties
    for i in range(scale(40, 300)):
        kind = r.choice(["multiclass", "binary"])
        m = g.model(kind)
        xs = [g.instance(m, lo=-1, hi=1) for _ in range(r.randint(1, 5))]
        w = g.weights(m, -1, 1)
        rec().trace("batch-%s-%d" % (kind, i))
        with call("batch_inference", m=m, w=w):
            Y = build(m).batch_inference(np.array([px(m, x) for x in xs]), wvec(m, w))
            rec().ev("eq", a=len(Y), b=len(xs))
            for x, y in zip(xs, Y):
                rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact="always", method="batch")


# ------------------------------------------------------------------ C04
def _marg(mu, nu):
    return fx(mu, 10000.), fx(nu, 10000.)


def c04():
    from pystruct.inference import inference_dispatch
    g = Gen(pv.SEED * 1000 + 4)
    r = g.r
    for i in range(scale(220, 2500)):
        n = r.randint(1, 5)
        S = r.randint(2, {1: 4, 2: 4, 3: 3, 4: 3, 5: 2}[n])
        es = g.graph(n, r.choice([.5, .8, 1.]))
        lo, hi = r.choice([(-1, 1), (-3, 3), (-9, 9)])
        frustrated = r.random() < .4
        if frustrated:      # fractional optima: prefer disagreement on odd cycles
            n = max(n, 3)
            S = 2 if n > 3 else r.randint(2, 3)
            es = [[a, (a + 1) % n] for a in range(n)]
            u = g.mat(n, S, 0, 1) if r.random() < .5 else [[0] * S for _ in range(n)]
            k = r.randint(1, 4)
            pw = [[0 if a == b else k for a in range(S) for b in range(S)] for _ in es]
        else:
            u, pw, _ = _raw(g, n, S, es, lo, hi, False)
        U, P, E = _arrs(u, pw, es)
        rec().trace("raw-%d" % i)
        for method in ("max-product", "lp", "ad3", EXACT):
            with call("inference_dispatch %s" % (method,), u=u, pw=pw, edges=es):
                y = inference_dispatch(U, P, E, method)
                rec().ev("raw", u=u, pw=pw, edges=es, y=ints(y), exact=method == EXACT, method=str(method))
        for method in ("max-product", "unary"):
            with call("energy %s" % method, u=u, pw=pw, edges=es):
                y, en = inference_dispatch(U, P, E, method, return_energy=True)
                rec().ev("raw", u=u, pw=pw, edges=es, y=ints(y), exact=False, method=method)
                rec().ev("ce", u=u, pw=pw, edges=es, y=ints(y), val=exact(-en))
        with call("relaxed lp", u=u, pw=pw, edges=es):
            (mu, nu), en = inference_dispatch(U, P, E, "lp", relaxed=True, return_energy=True)
            mu, nu = _marg(mu, nu)
            rec().ev("rel", u=u, pw=pw, edges=es, mu=mu, nu=nu, hasen=True, opt=True,
                     energy=fx(en, 10000.), tol=8, method="lp")
            y, en2 = inference_dispatch(U, P, E, "lp", relaxed=False, return_energy=True)
            rec().ev("laben", u=u, pw=pw, edges=es, y=ints(y), energy=fx(en2, 10000.), tight=False, tol=8)
        for bnb in (False, True):
            with call("relaxed ad3", u=u, pw=pw, edges=es):
                method = EXACT if bnb else "ad3"
                y, en = inference_dispatch(U, P, E, method, relaxed=True, return_energy=True)
                if isinstance(y, tuple):
                    mu, nu = _marg(*y)
                    rec().ev("rel", u=u, pw=pw, edges=es, mu=mu, nu=nu, hasen=True, opt=True,
                             energy=fx(en, 10000.), tol=25, method=str(method))
                else:
                    rec().ev("laben", u=u, pw=pw, edges=es, y=ints(y), energy=fx(en, 10000.),
                             tight=True, tol=25)
                y2 = inference_dispatch(U, P, E, method, relaxed=True)
                rec().ev("eq", a=isinstance(y2, tuple), b=isinstance(y, tuple))
    # message passing on cycles without interaction: the potentials of the edges that close
    # them are sums of a term per end, the others form a forest
    for i in range(scale(120, 1500)):
        n = r.randint(3, 6)
        S = {3: 4, 4: 3, 5: 3, 6: 2}[n]
        S = r.randint(2, S)
        es = g.forest(n, .95)
        hi = r.choice([2, 5, 9])
        u, pw, _ = _raw(g, n, S, es, -hi, hi, False)
        idle = []
        for _ in range(r.randint(1, 3)):
            a, b = r.sample(range(n), 2)
            f, h = g.ints(S, -3, 3), g.ints(S, -3, 3)
            idle.append(([a, b], [p + q for p in f for q in h]))
        both = list(zip(es, pw)) + idle
        r.shuffle(both)
        es, pw = [e for e, _ in both], [p for _, p in both]
        U, P, E = _arrs(u, pw, es)
        rec().trace("messages-%d" % i)
        d = r.choice([0., .25, .5, .5, .75])
        with call("message passing", u=u, pw=pw, edges=es):
            y = inference_dispatch(U, P, E, "max-product", max_iter=400, damping=d, tol=1e-9)
            rec().ev("rawu", u=u, pw=pw, edges=es, y=ints(y), method="max-product damping %s" % d)
    rec().trace("installed")
    with call("get_installed"):
        from pystruct.inference import get_installed
        names = ["max-product", "ad3", "ad3+", "qpbo", "ogm", "lp"]
        works = []
        for name in names:
            try:
                k = 1 if name == "ad3+" else 2
                pw = np.zeros((1, k, k)) if name != "ad3+" else np.zeros((0, 1, 1))
                inference_dispatch(np.zeros((1, k)), pw[:0], np.zeros((0, 2), dtype=int), name)
                works.append(name)
            except ImportError:
                pass
        rec().ev("eq", a=sorted(get_installed()), b=sorted(works))
        for _ in range(12):
            some = [r.choice(names) for _ in range(r.randint(0, 4))]
            rec().ev("eq", a=get_installed(some), b=[q for q in some if q in works])
        rec().ev("fact", what="at-least", ok="max-product" in works and "lp" in works)
    # any graph with cycles, a few sweeps: the limit and the tolerance are kept to
    for i in range(scale(100, 1500)):
        n, S = r.randint(2, 5), r.randint(2, 3)
        while True:
            es = [r.sample(range(n), 2) for _ in range(r.randint(2, 5))]
            if not pv.is_forest(n, es):
                break
        u, pw, _ = _raw(g, n, S, es, -3, 3, False)
        U, P, E = _arrs(u, pw, es)
        rec().trace("sweeps-%d" % i)
        half = r.random() < .5
        k = r.randint(1, max(1, 18 // (2 * len(es)) if half else 4))
        kw = dict(max_iter=k, tol=1e-9)
        if r.random() < .3:
            kw, k = dict(max_iter=r.randint(2, 40), tol=1e9), 1
        with call("message passing", u=u, pw=pw, edges=es):
            y = inference_dispatch(U, P, E, "max-product", damping=.5 if half else 0., **kw)
            rec().ev("sweeps", u=u, pw=pw, edges=es, y=ints(y), k=k, half=half)
    # through the models: legal labelings, relaxed results with the model's shapes
    for kind in KINDS:
        if kind in ("binary", "multiclass"):
            continue
        for i in range(scale(10, 80)):
            m = g.model(kind)
            x = g.instance(m, maxlab=200, forest=False)
            w = g.weights(m, -4, 4)
            if kind == "eflnode":
                w = [max(-2, min(2, a)) for a in w]
            rec().trace("model-%s-%d" % (kind, i))
            for method in (["ad3", "ad3+"] if kind == "typed" else ["max-product", "lp", "ad3", EXACT]):
                with call("inference %s" % (method,), m=m, x=x, w=w):
                    model = build(m, method)
                    y = model.inference(px(m, x), wvec(m, w))
                    rec().ev("legal", m=m, x=x, y=ints(y), method=str(method))
                    rec().ev("eq", a=list(np.shape(y)),
                             b=x["shape"] if kind in pv.GRIDK else [x["n"]])
            for method in (["ad3"] if kind == "typed" else ["lp", "ad3"]):
                with call("relaxed inference %s" % (method,), m=m, x=x, w=w):
                    model = build(m, method)
                    y, en = model.inference(px(m, x), wvec(m, w), relaxed=True, return_energy=True)
                    if isinstance(y, tuple):
                        mu, nu = y
                        if kind in pv.GRIDK:
                            rec().ev("eq", a=list(np.shape(mu)), b=x["shape"] + [m["S"]])
                            mu = np.asarray(mu).reshape(-1, m["S"])
                        if kind == "typed":
                            rec().ev("relm", m=m, x=x, w=w, mu=[fx(a, 10000.) for a in mu],
                                     nu=[fx(np.asarray(a).reshape(len(e), -1) if len(e) else [], 10000.)
                                         for a, e in zip(nu, x["tedges"])],
                                     energy=fx(en * m["D"], 10000.), tol=25)
                        else:
                            rec().ev("relm", m=m, x=x, w=w, mu=fx(mu, 10000.), nu=fx(nu, 10000.),
                                     energy=fx(en * m["D"] * m["ps"], 10000.), tol=8 if method == "lp" else 25)
                    else:
                        rec().ev("legal", m=m, x=x, y=ints(y), method="relaxed " + method)
    # large instances
    for i in range(scale(12, 120)):
        S = r.choice([2, 3])
        n = r.choice([12, 20, 40])
        es = g.big(mk("graph", S=S, F=1), n)["edges"]
        if i % 3 == 0:      # a ring, or a ladder
            es = [[a, (a + 1) % n] for a in range(n)]
            if i % 2:
                es = [[a, b] for a in range(n) for b in (a + 1, a + n // 2) if b < n and b != n // 2]
        order = pv.order(n, es)
        u, pw, _ = _raw(g, n, S, es, *r.choice([(-3, 3), (-1, 1)]), False)
        U, P, E = _arrs(u, pw, es)
        rec().trace("large-raw-%d" % i)
        for method in ("lp", "ad3"):
            with call("relaxed " + method, u=u, pw=pw, edges=es):
                pv.status()
                y, en = inference_dispatch(U, P, E, method, relaxed=True, return_energy=True)
                st = pv.status()
                if isinstance(y, tuple):
                    mu, nu = _marg(*y)
                    rec().ev("rel", u=u, pw=pw, edges=es, mu=mu, nu=nu, hasen=True, opt=True, order=order, status=st,
                             energy=fx(en, 10000.), tol=8 if method == "lp" else 25, method=method)
                else:
                    rec().ev("laben", u=u, pw=pw, edges=es, y=ints(y), energy=fx(en, 10000.), tight=True, tol=25,
                             order=order, status=st)
    for kind, i, m, x, w, order in bigs(g, 3, 30):
        rec().trace("large-model-%s-%d" % (kind, i))
        for method in (["ad3"] if kind == "typed" else ["lp", "ad3"]):
            with call("relaxed inference %s" % (method,), m=m, x=x, w=w):
                pv.status()
                y, en = build(m, method).inference(px(m, x), wvec(m, w), relaxed=True, return_energy=True)
                st = pv.status()
                if not isinstance(y, tuple):
                    rec().ev("legal", m=m, x=x, y=ints(y), method="relaxed " + method)
                    continue
                mu, nu = y
                if kind == "typed":
                    mu = [fx(a, 10000.) for a in mu]
                    nu = [fx(np.asarray(a).reshape(len(e), -1) if len(e) else [], 10000.)
                          for a, e in zip(nu, x["tedges"])]
                else:
                    mu, nu = fx(np.asarray(mu).reshape(-1, m["S"]), 10000.), fx(nu, 10000.)
                rec().ev("relm", m=m, x=x, w=w, mu=mu, nu=nu, order=order, energy=fx(en * m["D"] * m["ps"], 10000.),
                         tol=8 if method == "lp" else 25, status=st)


# ------------------------------------------------------------------ C05
def c05():
    g = Gen(pv.SEED * 1000 + 5)
    r = g.r
    for i, (m, x) in enumerate(sweep(g, 16, 150)):
        rec().trace("loss-%s-%d" % (m["kind"], i))
        with call("loss", m=m, x=x):
            model = build(m)
            for j in range(4):
                y = g.labeling(m, x)
                yh = list(y) if j == 0 else g.labeling(m, x)
                dt = r.choice([np.int64, np.int32, np.int64])
                Y, YH = py(m, x, y, dt), py(m, x, yh, dt)
                V = py(m, x, g.visible(m, x, y), dt)
                rec().ev("loss", m=m, x=x, y=y, yh=yh, val=exact(model.loss(Y, YH), m["D"]),
                         maxval=exact(model.max_loss(Y), m["D"]))
                if m["kind"] in pv.LATK:
                    # (visible labels are their own visible labels for models with hidden nodes)
                    rec().ev("loss", m=m, x=x, y=y, yh=yh, val=exact(model.loss(Y, YH), m["D"]),
                             maxval=exact(getattr(model, "base_max_loss", model.max_loss)(V), m["D"]))
                    v, vh = g.visible(m, x, y), g.visible(m, x, yh)
                    rec().ev("vloss", m=m, v=v, vh=vh,
                             val=exact(model.base_loss(py(m, x, v, dt), py(m, x, vh, dt)), m["D"]))
                    rec().ev("l2v", m=m, x=x, h=y, v=ints(model.label_from_latent(Y)))
    for kind in KINDS:
        for i in range(scale(5, 40)):
            m = g.model(kind)
            n = r.randint(1, 5)
            xs = [g.instance(m) for _ in range(n)]
            ys = [g.labeling(m, x) for x in xs]
            yhs = [list(y) if r.random() < .3 else g.labeling(m, x) for x, y in zip(xs, ys)]
            rec().trace("batch-loss-%s-%d" % (kind, i))
            with call("batch_loss", m=m):
                model = build(m)
                Y = [py(m, x, y) for x, y in zip(xs, ys)]
                YH = [py(m, x, y) for x, y in zip(xs, yhs)]
                if kind in ("multiclass", "binary"):
                    Y, YH = np.array(Y), np.array(YH)
                    if i % 2:
                        Y, YH = list(Y), list(YH)
                rec().ev("bloss", m=m, xs=xs, ys=ys, yhs=yhs, vals=exact(list(model.batch_loss(Y, YH)), m["D"]))
    # class weights given before the sizes are known from the data
    for i in range(scale(20, 100)):
        S, D = r.randint(2, 3), 2
        m = mk("graph", S=S, F=2, D=D, cw=g.cw(S, D))
        x = g.instance(m, n=4)
        y, yh = list(range(S)) + [0] * (4 - S), g.labeling(m, x)
        rec().trace("lazy-%d" % i)
        with call("loss of an initialized model", m=m, x=x):
            from pystruct.models import GraphCRF
            model = GraphCRF(n_states=S, class_weight=list(np.array(m["cw"]) / float(D)))
            model.initialize([px(m, x)], [py(m, x, y)])
            rec().ev("loss", m=m, x=x, y=y, yh=yh, val=exact(model.loss(py(m, x, y), py(m, x, yh)), D),
                     maxval=exact(model.max_loss(py(m, x, y)), D))


# ------------------------------------------------------------------ C06
def c06():
    g = Gen(pv.SEED * 1000 + 6)
    r = g.r
    for kind in KINDS:
        for i in range(scale(150 if kind == "typed" else 50, 600 if kind == "typed" else 400)):
            m = g.model(kind, **(dict(rescale=r.random() < .4) if kind == "multiclass" else {}))
            if i % 3 == 0 and kind in ("graph", "chain", "edgefeat", "multiclass", "lnode", "eflnode"):
                # weights of the classes that matter
                m = mk(**dict(m, D=4, cw=g.cw(len(m["cw"]), 4)))
            if kind == "typed" and i % 2:
                # weights that differ between the types and decide (the optimum is rarely unique if not)
                cw = g.cw(sum(m["tS"]), 4)
                heavy = r.randrange(m["T"])
                at = sum(m["tS"][:heavy])
                cw[at:at + m["tS"][heavy]] = [r.randint(20, 60) for _ in range(m["tS"][heavy])]
                m = mk(**dict(m, D=4, cw=cw, cwgiven=True))
            forest = r.random() < .5 or kind == "typed"
            x = g.instance(m, forest=forest, maxlab=200)
            isf = pv.forest_inst(m, x)
            w = g.weights(m, *r.choice([(-4, 4), (-1, 1), (0, 0)]))
            if kind == "eflnode":
                w = [max(-2, min(2, a)) for a in w]
            methods = [EXACT] + (["max-product"] if isf else [])
            if kind == "typed":
                methods = ["ad3"]
            elif kind in ("binary", "multiclass"):
                methods = [None]
            elif not pv.flat_edges(m, x):
                methods.append("unary")
            rec().trace("aug-%s-%d" % (kind, i))
            for method in methods:
                y = g.labeling(m, x)
                with call("loss_augmented_inference %s" % (method,), m=m, x=x, w=w, y=y):
                    model = build(m, method)
                    pv.status()
                    yh = model.loss_augmented_inference(px(m, x), py(m, x, y), wvec(m, w))
                    rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(yh), method=str(method), status=pv.status(),
                             exact="unique" if method == "ad3" else "always")
                    if method == EXACT and kind != "ldgrid":
                        _, en = model.loss_augmented_inference(px(m, x), py(m, x, y), wvec(m, w), return_energy=True)
                        rec().ev("augen", m=m, x=x, w=w, y=y, val=fx(-en * m["D"] * m["ps"], 100), K=100, tol=40)
    # large instances
    for kind, i, m, x, w, order in bigs(g, 6, 60):
        rec().trace("large-%s-%d" % (kind, i))
        for method in ["ad3"] if kind == "typed" else [EXACT] + (["max-product"] if pv.forest_inst(m, x) else []):
            y = g.labeling(m, x)
            with call("loss_augmented_inference %s" % (method,), m=m, x=x, w=w, y=y):
                pv.status()
                yh = build(m, method).loss_augmented_inference(px(m, x), py(m, x, y), wvec(m, w))
                rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(yh), method=str(method), order=order,
                         exact="unique" if method == "ad3" else "always", status=pv.status())
    # batches, with ties
    for kind in KINDS:
        for i in range(scale(10 if kind in ("binary", "multiclass") else 3, 60)):
            m = g.model(kind, **(dict(rescale=r.random() < .4) if kind == "multiclass" else {}))
            n = r.randint(1, 5)
            xs = [g.instance(m, lo=-1, hi=1, maxlab=100, forest=True) for _ in range(n)]
            ys = [g.labeling(m, x) for x in xs]
            w = g.weights(m, -1, 1)
            rec().trace("batch-%s-%d" % (kind, i))
            with call("batch_loss_augmented_inference", m=m, w=w):
                model = build(m, EXACT if kind != "typed" else "ad3")
                X = [px(m, x) for x in xs]
                Y = [py(m, x, y) for x, y in zip(xs, ys)]
                if kind in ("multiclass", "binary"):
                    X, Y = np.array(X), np.array(Y)
                YH = model.batch_loss_augmented_inference(X, Y, wvec(m, w))
                rec().ev("eq", a=len(YH), b=n)
                for x, y, yh in zip(xs, ys, YH):
                    rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(yh), method="batch",
                             exact="unique" if kind == "typed" else "always")
    # exact ties: the margin equals the loss
    for i in range(scale(60, 300)):
        kind = r.choice(["binary", "multiclass"])
        m = mk(kind, F=1, S=2 if kind == "binary" else r.randint(2, 3), D=1)
        x = g.instance(m, lo=-1, hi=1)
        w = g.weights(m, -1, 1)
        y = g.labeling(m, x)
        rec().trace("tie-%s-%d" % (kind, i))
        with call("loss_augmented_inference", m=m, x=x, w=w, y=y):
            model = build(m)
            yh = model.loss_augmented_inference(px(m, x), py(m, x, y), wvec(m, w))
            rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(yh), method="tie", exact="always")
            YH = model.batch_loss_augmented_inference(px(m, x)[None], np.array([py(m, x, y)]), wvec(m, w))
            rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(YH[0]), method="tie", exact="always")


# ------------------------------------------------------------------ C08
def c08():
    g = Gen(pv.SEED * 1000 + 8)
    r = g.r
    for kind in pv.LATK:
        for i in range(scale(30, 300)):
            m = g.model(kind)
            if kind in ("lnode", "eflnode"):
                m = g.model(kind, H=r.randint(1, 3), L=r.randint(1, 2) if kind == "lnode" else 2)
            x = g.instance(m, forest=r.random() < .5, maxlab=200)
            w = g.weights(m, *r.choice([(-3, 3), (-1, 1), (0, 0), (-4, -1)]))
            if kind == "eflnode":
                w = [max(-2, min(2, a)) for a in w]
            # the maximizers do not change if the weights are multiplied
            k = 2. ** r.choice([0, 0, 4, 7])
            y = g.visible(m, x, g.labeling(m, x))
            if i % 3 == 0:      # no positive potential
                x["feat"] = [[abs(a) for a in f] for f in x["feat"]]
                w = [-abs(a) for a in w]
            rec().trace("latent-%s-%d" % (kind, i))
            ms = [EXACT] + (["max-product"] if pv.forest_inst(m, x) else []) + ["ad3"]
            if not pv.flat_edges(m, x):
                ms.append("unary")
            for method in ms:
                with call("latent %s" % (method,), m=m, x=x, w=w, y=y):
                    model = build(m, method)
                    h = model.latent(px(m, x), py(m, x, y), k * wvec(m, w))
                    rec().ev("lat", m=m, x=x, w=w, y=y, h=ints(h), exact=method != "ad3", method=str(method),
                             k=exact(k))
                    rec().ev("l2v", m=m, x=x, h=ints(h), v=ints(model.label_from_latent(np.asarray(h))))
                    if kind in pv.GRIDK:
                        rec().ev("eq", a=list(np.shape(h)), b=x["shape"])
            # every latent state has a label
            with call("label_from_latent", m=m, x=x):
                model = build(m, "max-product")
                h = g.labeling(m, x)
                rec().ev("l2v", m=m, x=x, h=h, v=ints(model.label_from_latent(py(m, x, h))))
    # large instances, also with nodes of many edges
    for kind, i, m, x, w, order in bigs(g, 12, 120, pv.LATK):
        if kind not in pv.GRIDK and i % 2:
            x = g.big(m, r.choice([60, 110, 150]))
            order = pv.order(x["n"], x["edges"])
            # all neighbours of a node agree on what they like best
            w = [r.randint(-1, 1) if j < m["nin"] * m["F"] else r.choice([-2, 2]) for j in range(len(w))]
            y = [r.randrange(m["L"])] * len(g.visible(m, x, [0] * x["n"]))
        else:
            y = g.visible(m, x, g.labeling(m, x))
        rec().trace("large-%s-%d" % (kind, i))
        for method in [EXACT] + (["max-product"] if pv.forest_inst(m, x) else []) + ["lp"]:
            with call("latent %s" % (method,), m=m, x=x, w=w, y=y):
                model = build(m, method)
                pv.status()
                h = model.latent(px(m, x), py(m, x, y), wvec(m, w))
                rec().ev("lat", m=m, x=x, w=w, y=y, h=ints(h), exact=method != "lp", method=str(method), k=exact(1),
                         order=order, status=pv.status())
                # prediction does not mix up the states either
                h = model.inference(px(m, x), wvec(m, w))
                rec().ev("legal", m=m, x=x, y=ints(h))
    # initial assignments
    for kind in pv.LATK:
        for i in range(scale(8, 60)):
            m = g.model(kind)
            shape = [r.randint(2, 3), r.randint(2, 3)]
            n = r.randint(5, 7)
            k = r.randint(2, 4)
            same_n = kind == "lgraph" and r.random() < .5
            xs = []
            for _ in range(k):
                x = g.instance(m, n=n if same_n else r.randint(4, 7), shape=shape)
                if kind in ("lnode", "eflnode"):
                    x["nv"] = r.randint(2, x["n"] - 2)
                    if i % 3 == 2 and xs:        # instances without hidden nodes too, and any graph
                        x["nv"] = x["n"] if r.random() < .4 else x["nv"]
                        x["edges"] = x["edges"] + [[x["n"] - 1, r.randint(0, x["n"] - 2)]]
                    else:
                        x["edges"] = [[a, b] for a in range(x["nv"]) for b in range(x["nv"], x["n"])]
                    if m["pair"] == "ef":
                        x["ef"] = g.mat(len(x["edges"]), m["FE"], -2, 2)
                    x["feat"] = g.mat(x["n"] if m["lnf"] else x["nv"], m["F"])
                xs.append(x)
            ys = []
            for x in xs:     # every label occurs often enough to be split
                nv = len(g.visible(m, x, [0] * x["n"]))
                ys.append([r.randrange(m["L"]) for _ in range(nv)])
            flat = [a for y in ys for a in y]
            need = m["spl"] if m["spl"] else [1] * m["L"]
            if any(0 < flat.count(l) < need[l] for l in range(m["L"])):
                continue
            rec().trace("init-%s-%d" % (kind, i))
            with call("init_latent", m=m):
                model = build(m, "max-product")
                X = [px(m, x) for x in xs]
                Y = [py(m, x, y) for x, y in zip(xs, ys)]
                if kind in pv.GRIDK:
                    X, Y = np.array(X), np.array(Y)
                H = model.init_latent(X, Y)
                rec().ev("eq", a=len(H), b=len(xs))
                for x, y, h in zip(xs, ys, H):
                    rec().ev("initlat", m=m, x=x, y=y, h=ints(h))
