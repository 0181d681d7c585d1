"""C24: grid models are the graph model on the lattice"""
import numpy as np

import pv
from drv_models import EXACT, _mu_nu, _rel_arg
from pv import Gen, build, call, exact, fx, ints, mk, px, py, rec, scale, wvec


def graph_twin(m, x, method):
    """the graph model of the same meaning, and its input: the lattice spelled out"""
    es = pv.grid_edges(x["shape"][0], x["shape"][1], m["nb"])
    kind = {"grid": "graph", "dgrid": "edgefeat", "lgrid": "lgraph"}.get(m["kind"])
    if kind is None:
        return None
    q = dict(kind=kind, S=m["S"], F=m["F"], D=m["D"], spl=m["spl"])
    if kind == "graph":
        q["directed"] = False
    if kind == "edgefeat":
        q["FE"] = m["FE"]
    m2 = mk(**q)
    n, off, nd = x["shape"][0] * x["shape"][1], 0, 2 if m["nb"] == 4 else 4
    h, w = x["shape"]
    sizes = [h * (w - 1), (h - 1) * w] + ([(h - 1) * (w - 1)] * 2 if m["nb"] == 8 else [])
    ef = [[int(d == k) for k in range(nd)] for d, s in enumerate(sizes) for _ in range(s)]
    x2 = dict(x, edges=es, n=n, ef=ef)
    return m2, x2, build(m2, method), px(m2, x2)


def shape_of(y, n):
    return list(np.shape(y[0])) if isinstance(y, tuple) else list(np.shape(y))


def relax(y, S):
    """node marginals and edge marginals, flat"""
    return np.asarray(y[0]).reshape(-1, S), np.asarray(y[1])


def c24():
    from pystruct.utils import edge_list_to_features, make_grid_edges
    g = Gen(pv.SEED * 1000 + 24)
    r = g.r
    # the edges themselves
    for h in range(1, scale(6, 9)):
        for w in range(1, scale(6, 9)):
            for nb in (4, 8):
                rec().trace("lattice-%dx%d-%d" % (h, w, nb))
                with call("make_grid_edges"):
                    for x in (np.zeros((h, w, 3)), np.zeros((h, w))):
                        ls = make_grid_edges(x, neighborhood=nb, return_lists=True)
                        fl = make_grid_edges(x, neighborhood=nb)
                        rec().ev("lattice", h=h, w=w, nb=nb, lists=[exact(np.asarray(a).reshape(-1, 2)) for a in ls],
                                 edges=exact(np.asarray(fl).reshape(-1, 2)), ef=exact(edge_list_to_features(ls)))
    for i in range(scale(30, 200)):
        sizes = [r.choice([0, 0, 1, 2, 3]) for _ in range(r.randint(1, 4))]
        ls = [np.array(g.mat(s, 2, 0, 9), int).reshape(-1, 2) for s in sizes]
        rec().trace("edge-features-%d" % i)
        with call("edge_list_to_features"):
            rec().ev("listfeat", sizes=sizes, ef=exact(edge_list_to_features(ls)))
    # models, small grids: decided by enumeration; thin grids also with message passing
    thin = [[1, 1], [1, 2], [1, 3], [1, 4], [2, 1], [3, 1], [4, 1], [1, 5]]
    fat = [[2, 2], [2, 3], [3, 2], [2, 4], [3, 3], [4, 2]]
    for kind in pv.GRIDK:
        for i in range(scale(36, 300)):
            m = g.model(kind)
            small = m["S"] <= 2
            x = g.instance(m, shape=r.choice(thin if i % 3 == 0 else fat if small else fat[:3] if m["S"] == 3 else fat[:1]))
            if m["S"] ** (x["shape"][0] * x["shape"][1]) > 800:
                x = g.instance(m, shape=r.choice([[1, 3], [3, 1], [2, 2], [1, 2]]))
            w = g.weights(m)
            isf = pv.forest_inst(m, x)
            shape = list(x["shape"])
            rec().trace("grid-%s-%d" % (kind, i))
            for method in [EXACT] + (["max-product", "lp"] if isf else []):
                ex = "unique" if method == "lp" else "always"
                with call("grid %s" % (method,), m=m, x=x, w=w):
                    model, X, W = build(m, method), px(m, x), wvec(m, w)
                    tw = graph_twin(m, x, method)
                    y = g.labeling(m, x)
                    v = g.visible(m, x, y)
                    Y = py(m, x, y)
                    jf = model.joint_feature(X, Y)
                    rec().ev("jf", m=m, x=x, y=y, jf=exact(jf, m["ps"]), size=int(model.size_joint_feature))
                    p, en = model.inference(X, W, return_energy=True)
                    rec().ev("inf", m=m, x=x, w=w, y=ints(p), exact=ex, method=str(method))
                    rec().ev("eq", a=list(np.shape(p)), b=shape)
                    p2 = model.inference(X, W)
                    rec().ev("inf", m=m, x=x, w=w, y=ints(p2), exact=ex, method=str(method))
                    rec().ev("eq", a=list(np.shape(p2)), b=shape)
                    a, ena = model.loss_augmented_inference(X, Y, W, return_energy=True)
                    rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(a), exact=ex, method=str(method))
                    rec().ev("eq", a=list(np.shape(a)), b=shape)
                    a2 = model.loss_augmented_inference(X, Y, W)
                    rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(a2), exact=ex, method=str(method))
                    rec().ev("eq", a=list(np.shape(a2)), b=shape)
                    if method != "lp":
                        rec().ev("energy", m=m, x=x, w=w, val=fx(-en * m["D"] * m["ps"], 100), K=100, tol=40)
                        rec().ev("augen", m=m, x=x, w=w, y=y, val=fx(-ena * m["D"] * m["ps"], 100), K=100, tol=40)
                    rec().ev("loss", m=m, x=x, y=y, yh=ints(a), val=exact(model.loss(Y, a), m["D"]),
                             maxval=exact(model.max_loss(Y), m["D"]))
                    if m["L"]:
                        V = py(m, x, v)
                        hh = model.latent(X, V, W)
                        rec().ev("lat", m=m, x=x, w=w, y=v, h=ints(hh), exact=method != "lp")
                        rec().ev("eq", a=list(np.shape(hh)), b=shape)
                        rec().ev("eq", a=list(np.shape(model.label_from_latent(hh))), b=shape)
                    if tw:
                        m2, x2, mod2, X2 = tw
                        rec().ev("jf", m=m2, x=x2, y=y, jf=exact(mod2.joint_feature(X2, np.array(y)), m2["ps"]),
                                 size=int(mod2.size_joint_feature))
                        rec().ev("eq", a=exact(jf), b=exact(mod2.joint_feature(X2, np.array(y))))
                        q, en2 = mod2.inference(X2, W, return_energy=True)
                        rec().ev("inf", m=m, x=x, w=w, y=ints(q), exact=ex, method="twin")
                        qa, ena2 = mod2.loss_augmented_inference(X2, np.array(y), W, return_energy=True)
                        rec().ev("aug", m=m, x=x, w=w, y=y, yh=ints(qa), exact=ex, method="twin")
    # relaxed results
    for kind in pv.GRIDK:
        for i in range(scale(16, 120)):
            m = g.model(kind)
            x = g.instance(m, shape=r.choice([[1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1]] + ([[2, 3], [3, 2], [3, 3]] if m["S"] < 3 else [])))
            w = g.weights(m)
            shape = list(x["shape"])
            rec().trace("relaxed-%s-%d" % (kind, i))
            for method in ("lp", "ad3"):
                with call("relaxed %s" % method, m=m, x=x, w=w):
                    model, X, W = build(m, method), px(m, x), wvec(m, w)
                    tw = graph_twin(m, x, method)
                    y = g.labeling(m, x)
                    Y = py(m, x, y)
                    rel, en = model.inference(X, W, relaxed=True, return_energy=True)
                    aug, ena = model.loss_augmented_inference(X, Y, W, relaxed=True, return_energy=True)
                    for z in (rel, aug):
                        rec().ev("eq", a=shape_of(z, 0), b=shape + ([m["S"]] if isinstance(z, tuple) else []))
                    if isinstance(rel, tuple):
                        mu, nu = relax(rel, m["S"])
                        rec().ev("relm", m=m, x=x, w=w, mu=fx(mu, 10000.), nu=fx(nu, 10000.),
                                 energy=fx(en * m["D"] * m["ps"], 10000.), tol=8 if method == "lp" else 25)
                    if tw:
                        m2, x2, mod2, X2 = tw
                        q, en2 = mod2.inference(X2, W, relaxed=True, return_energy=True)
                        qa, ena2 = mod2.loss_augmented_inference(X2, np.array(y), W, relaxed=True, return_energy=True)
                        rec().ev("near", a=[fx(en, 1000), fx(ena, 1000)], b=[fx(en2, 1000), fx(ena2, 1000)], tol=40)
                        for z in (rel, aug):
                            if isinstance(z, tuple):
                                z2 = relax(z, m["S"])
                                rec().ev("near", a=fx(model.joint_feature(X, z), 1000), b=fx(mod2.joint_feature(X2, z2), 1000), tol=2)
                                rec().ev("near", a=[fx(model.loss(Y, z), 1000)], b=[fx(mod2.loss(np.array(y), z2), 1000)], tol=2)
                    # marginals made up
                    K = 4
                    mu, nu = _mu_nu(m, x, [g.labeling(m, x) for _ in range(K)])
                    arg = _rel_arg(m, x, mu, nu, K)
                    rec().ev("jfrel", m=m, x=x, mu=mu, nu=nu, jf=exact(model.joint_feature(X, arg), m["ps"] * K))
                    rec().ev("lossrel", m=m, x=x, y=y, mu=mu, K=K, val=exact(model.loss(Y, arg), m["D"] * K))
    # larger grids: the joint feature, and the same optimum as the twin
    for kind in pv.GRIDK:
        for i in range(scale(8, 60)):
            m = g.model(kind)
            x = g.instance(m, shape=[r.randint(1, 9), r.randint(1, 9)])
            w = g.weights(m)
            rec().trace("large-%s-%d" % (kind, i))
            with call("large", m=m, x=x, w=w):
                model, X, W = build(m, "lp"), px(m, x), wvec(m, w)
                y = g.labeling(m, x)
                rec().ev("jf", m=m, x=x, y=y, jf=exact(model.joint_feature(X, py(m, x, y)), m["ps"]),
                         size=int(model.size_joint_feature))
                rec().ev("loss", m=m, x=x, y=y, yh=y[::-1], val=exact(model.loss(py(m, x, y), py(m, x, y[::-1])), m["D"]),
                         maxval=exact(model.max_loss(py(m, x, y)), m["D"]))
                tw = graph_twin(m, x, "lp")
                if tw and x["shape"][0] * x["shape"][1] <= 25:
                    m2, x2, mod2, X2 = tw
                    p, en = model.inference(X, W, relaxed=True, return_energy=True)
                    q, en2 = mod2.inference(X2, W, relaxed=True, return_energy=True)
                    rec().ev("near", a=[fx(en, 1000)], b=[fx(en2, 1000)], tol=40)
    # initial latent assignments keep the shape and the labels
    for kind in ("lgrid", "ldgrid"):
        for i in range(scale(12, 80)):
            m = g.model(kind)
            shape = r.choice([[2, 3], [3, 2], [4, 1], [1, 5], [3, 3], [3, 4]])
            n = r.randint(2, 4)
            xs = [g.instance(m, shape=shape) for _ in range(n)]
            vs = [[r.randrange(m["L"]) for _ in range(shape[0] * shape[1])] for _ in xs]
            flat = [a for v in vs for a in v]
            if any(flat.count(l) < s for l, s in enumerate(m["spl"])):
                continue
            rec().trace("init-%s-%d" % (kind, i))
            with call("init_latent", m=m):
                model = build(m)
                H = model.init_latent(np.array([px(m, x) for x in xs]), np.array([py(m, x, v) for x, v in zip(xs, vs)]))
                rec().ev("eq", a=list(np.shape(H)), b=[n] + shape)
                for x, v, h in zip(xs, vs, H):
                    rec().ev("initlat", m=m, x=x, y=v, h=ints(h))
