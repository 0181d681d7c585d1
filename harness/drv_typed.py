"""C18: typed graph models.  C19: hard logic constraints."""
import numpy as np

import pv
from drv_models import EXACT, _rel_arg, _mu_nu
from pv import Gen, build, call, exact, fx, ints, mk, px, py, rec, scale, wvec

EXACTC = ("ad3+", {"branch_and_bound": True})


# ------------------------------------------------------------------ C18
def twin(g):
    """an edge feature model with an instance, and the same with one node type"""
    m = g.model("edgefeat", sym=[], anti=[])
    x = g.instance(m, maxlab=200)
    t = mk("typed", T=1, tS=[m["S"]], tF=[m["F"]], tFE=[m["FE"]], D=m["D"], **(dict(cw=m["cw"]) if m["cwgiven"] else {}))
    tx = dict(x, tn=[x["n"]], tfeat=[x["feat"]], tedges=[x["edges"]], tef=[x["ef"]])
    return m, x, t, tx


def nones(m, x, X, r):
    """the same input with None for what is empty"""
    F, E, G = (list(a) for a in X)
    for b in range(m["T"] ** 2):
        if not len(E[b]) and r.random() < .7:
            E[b], G[b] = None, None
    for t in range(m["T"]):
        if not len(F[t]) and r.random() < .7:
            F[t] = None
    return (F, E, G)


def typed_case(g, forest=None):
    r = g.r
    m = g.model("typed")
    if r.random() < .3 and m["T"] > 1:      # types without edges between them have no features
        T, fe = m["T"], list(m["tFE"])
        a, b = r.randrange(T), r.randrange(T)
        fe[a * T + b] = fe[b * T + a] = 0
        m = mk(**dict(m, tFE=fe, **(dict() if m["cwgiven"] else dict(cw=[]))))
    x = g.instance(m, forest=forest, maxlab=220)
    for b in range(m["T"] ** 2):
        if m["tFE"][b] == 0:
            x["tedges"][b], x["tef"][b] = [], []
    return m, x


def c18():
    g = Gen(pv.SEED * 1000 + 18)
    r = g.r
    # one type
    for i in range(scale(110, 800)):
        m, x, t, tx = twin(g)
        w = g.weights(m)
        W = wvec(m, w)
        rec().trace("one-type-%d" % i)
        with call("one type", m=m, x=x, w=w):
            A, B = build(m, EXACT), build(t, EXACT)
            X, TX = px(m, x), px(t, tx)
            rec().ev("eq", a=int(A.size_joint_feature), b=int(B.size_joint_feature))
            for j in range(2):
                y, yt = np.array(g.labeling(m, x)), np.array(g.labeling(m, x))
                rec().ev("twin", m=m, x=x, y=ints(y), yt=ints(yt), jf=exact(A.joint_feature(X, y)),
                         jf2=exact(B.joint_feature(TX, y)), loss=exact(A.loss(yt, y), m["D"]),
                         loss2=exact(B.loss(yt, y), m["D"]), maxl=exact(A.max_loss(yt), m["D"]),
                         maxl2=exact(B.max_loss(yt), m["D"]))
            rec().ev("inf", m=t, x=tx, w=w, y=ints(B.inference(TX, W)), exact="always")
            rec().ev("inf", m=m, x=x, w=w, y=ints(B.inference(TX, W)), exact="always")
            yh = ints(B.loss_augmented_inference(TX, yt, W))
            for q, z in ((t, tx), (m, x)):
                rec().ev("aug", m=q, x=z, w=w, y=ints(yt), yh=yh, method="one-type", exact="always")
            rec().ev("inf", m=m, x=x, w=w, y=ints(A.inference(X, W)), exact="always")
            # marginals
            ys = [g.labeling(m, x) for _ in range(2)]
            mu, nu = _mu_nu(m, x, ys)
            a = exact(A.joint_feature(X, (mu / 2., nu / 2.)), 2)
            rec().ev("jfrel", m=m, x=x, mu=mu, nu=nu, jf=exact(B.joint_feature(TX, ([mu / 2.], [nu / 2.])), 2))
            rec().ev("eq", a=a, b=exact(B.joint_feature(TX, (mu / 2., nu / 2.)), 2))
            rec().ev("eq", a=exact(A.continuous_loss(yt, mu / 2.), 2 * m["D"]),
                     b=exact(B.continuous_loss(yt, [mu / 2.]), 2 * m["D"]))
            # the relaxations have the same optimum
            en = []
            for meth in ("ad3", "ad3+"):
                B.setInferenceMethod(meth)
                rel, e = B.inference(TX, W, relaxed=True, return_energy=True)
                en.append(e * m["D"])
                if isinstance(rel, tuple):
                    rec().ev("relm", m=t, x=tx, w=w, mu=[fx(k, 10000.) for k in rel[0]],
                             nu=[fx(np.asarray(k).reshape(-1, m["S"] ** 2), 10000.) for k in rel[1]],
                             energy=fx(e * m["D"], 10000.), tol=25)
            A.inference_method = "lp"
            _, e = A.inference(X, W, relaxed=True, return_energy=True)
            rec().ev("near", a=fx(en, 10000.), b=fx([e * m["D"]] * 2, 10000.),
                     tol=100 * (1 + sum(abs(v) for v in w)) * (1 + x["n"]))
    # several types
    for i in range(scale(150, 1200)):
        forest = r.random() < .5
        m, x = typed_case(g, forest)
        w = g.weights(m)
        rec().trace("types-%d" % i)
        with call("types", m=m, x=x, w=w):
            model = build(m, EXACT)
            X, W = px(m, x), wvec(m, w)
            if i % 2:
                X = nones(m, x, X, r)
            y, yt = g.labeling(m, x), g.labeling(m, x)
            Y, YT = np.array(y), np.array(yt)
            rec().ev("jf", m=m, x=x, y=y, jf=exact(model.joint_feature(X, Y)), size=int(model.size_joint_feature))
            ls = model.unflattenY(X, Y)
            rec().ev("typedlab", m=m, x=x, y=y, ls=[exact(np.asarray(a)) for a in ls], back=ints(model.flattenY(ls)))
            rec().ev("loss", m=m, x=x, y=yt, yh=y, val=exact(model.loss(YT, Y), m["D"]),
                     maxval=exact(model.max_loss(YT), m["D"]))
            rec().ev("inf", m=m, x=x, w=w, y=ints(model.inference(X, W)), exact="always")
            rec().ev("aug", m=m, x=x, w=w, y=yt, yh=ints(model.loss_augmented_inference(X, YT, W)),
                     method="types", exact="always")
            isf = pv.forest_inst(m, x)
            for meth in ("ad3", "ad3+"):
                model.setInferenceMethod(meth)
                if isf:
                    rec().ev("inf", m=m, x=x, w=w, y=ints(model.inference(X, W)), exact="unique")
                    rec().ev("aug", m=m, x=x, w=w, y=yt, yh=ints(model.loss_augmented_inference(X, YT, W)),
                             method=meth, exact="unique")
                rel, e = model.inference(X, W, relaxed=True, return_energy=True)
                if isinstance(rel, tuple):
                    mu, nu = rel
                    rec().ev("relm", m=m, x=x, w=w, mu=[fx(a, 10000.) for a in mu],
                             nu=[fx(np.asarray(a).reshape(len(e_), -1) if len(e_) else [], 10000.)
                                 for a, e_ in zip(nu, x["tedges"])],
                             energy=fx(e * m["D"], 10000.), tol=25)
                else:
                    rec().ev("legal", m=m, x=x, y=ints(rel), method=meth)
                    rec().ev("inf", m=m, x=x, w=w, y=ints(rel), exact="always")
                rel = model.loss_augmented_inference(X, YT, W, relaxed=True)
                if not isinstance(rel, tuple):
                    rec().ev("aug", m=m, x=x, w=w, y=yt, yh=ints(rel), method="relaxed", exact="always")
            # results that are no solution are refused if that is asked for
            from pystruct.inference import InferenceException
            model.setInferenceException(True)
            for aug in (False, True):
                try:
                    z = ints(model.loss_augmented_inference(X, YT, W) if aug else model.inference(X, W))
                except InferenceException:
                    continue
                if aug:
                    rec().ev("aug", m=m, x=x, w=w, y=yt, yh=z, method="exception", exact="always")
                else:
                    rec().ev("inf", m=m, x=x, w=w, y=z, exact="always")
    # samples of different sizes
    for i in range(scale(20, 150)):
        m = g.model("typed")
        xs = [g.instance(m, forest=True, maxlab=100) for _ in range(r.randint(2, 4))]
        ys, yts = [g.labeling(m, x) for x in xs], [g.labeling(m, x) for x in xs]
        w = g.weights(m)
        rec().trace("batch-%d" % i)
        with call("batch", m=m, w=w):
            model = build(m, EXACT)
            X, W = [px(m, x) for x in xs], wvec(m, w)
            Y, YT = [np.array(y) for y in ys], [np.array(y) for y in yts]
            rec().ev("bjf", m=m, xs=xs, ys=ys, jf=exact(model.batch_joint_feature(X, Y)))
            rec().ev("bloss", m=m, xs=xs, ys=yts, yhs=ys, vals=exact(model.batch_loss(YT, Y), m["D"]))
            for x, y in zip(xs, model.batch_inference(X, W)):
                rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact="always")
            for x, yt, y in zip(xs, yts, model.batch_loss_augmented_inference(X, YT, W)):
                rec().ev("aug", m=m, x=x, w=w, y=yt, yh=ints(y), method="batch", exact="always")


# ------------------------------------------------------------------ C19
OPS = ["XOR", "XOROUT", "ATMOSTONE", "OR", "OROUT", "ANDOUT", "IMPLY"]


def constraint(g, m, x):
    """a constraint of the specification and the tuple pystruct takes"""
    r = g.r
    op = r.choice(OPS)
    dom = g.dom(m, x)
    cand = [(k, s) for k in range(len(dom)) for s in dom[k]]
    same = None
    if r.random() < .4:                      # one state for all the nodes
        k0 = r.choice(cand)[1]
        same = [c for c in cand if c[1] == k0]
        if len(same) >= 2:
            cand = same
        else:
            same = None
    need = 2 if op in ("XOROUT", "OROUT", "ANDOUT", "IMPLY") else 1
    n = r.randint(need, max(need, min(4, len(cand))))
    if len(cand) < n:
        return None
    lits = r.sample(cand, n)
    negs = [int(r.random() < .3) for _ in lits]
    allneg = r.random() < .4
    if allneg:
        negs = [negs[0]] * n
    if m["kind"] != "typed":
        states = [s for _, s in lits]
        if same is not None and r.random() < .7:
            states = states[0]
        ng = [bool(a) for a in negs]
        if len(set(negs)) == 1 and r.random() < .7:
            ng = (None if not negs[0] and r.random() < .5 else bool(negs[0]))
        return dict(op=op, lits=[[k, s, a] for (k, s), a in zip(lits, negs)]), (op, [k for k, _ in lits], states, ng)
    # typed: grouped by type
    T = m["T"]
    off = [sum(x["tn"][:t]) for t in range(T)]
    so = [sum(m["tS"][:t]) for t in range(T)]

    def typ(k):
        return max(t for t in range(T) if off[t] <= k and x["tn"][t])
    al = sorted(zip(lits, negs), key=lambda a: typ(a[0][0]))
    last = None
    # the distinguished literal; the library takes a type other than the first one
    q = [a for a in al if typ(a[0][0]) > 0]
    if q and n > 1 and r.random() < .6:
        last = r.choice(q)
        al.remove(last)
    nodes, states, ngs = [], [], []
    for t in range(T):
        mine = [a for a in al if typ(a[0][0]) == t]
        nodes.append([a[0][0] - off[t] for a in mine])
        st = [a[0][1] - so[t] for a in mine]
        states.append(st[0] if mine and len(set(st)) == 1 and r.random() < .5 else st)
        nn = [bool(a[1]) for a in mine]
        ngs.append(nn[0] if mine and len(set(nn)) == 1 and r.random() < .5 else nn)
    tup = (op, nodes, states, ngs)
    if last is not None:
        (k, s), a = last
        t = typ(k)
        tup += ((t, k - off[t], s - so[t], bool(a)),)
        al = al + [last]
    return dict(op=op, lits=[[k, s, a] for (k, s), a in al]), tup


def constraints(g, m, x, lo=1, hi=3):
    out = []
    while len(out) < g.r.randint(lo, hi):
        c = constraint(g, m, x)
        if c is not None:
            out.append(c)
        elif g.r.random() < .2:
            break
    return [c[0] for c in out], [c[1] for c in out]


def satisfiable(g, m, x, cons):
    import itertools
    for y in itertools.product(*g.dom(m, x)):
        ok = True
        for c in cons:
            b = [(y[k] == s) != bool(a) for k, s, a in c["lits"]]
            n, i, o = sum(b), sum(b[:-1]), b[-1]
            ok = ok and {"XOR": n == 1, "ATMOSTONE": n <= 1, "OR": n >= 1, "XOROUT": i <= 1 and o == (i == 1),
                         "OROUT": o == (i >= 1), "ANDOUT": o == (i == len(b) - 1),
                         "IMPLY": o or i < len(b) - 1}[c["op"]]
        if ok:
            return True
    return False


CONKINDS = ["edgefeat", "typed", "graph", "typed", "chain", "multilabel", "edgefeat", "typed", "lgraph"]


def con_case(g, kind, maxlab=120):
    """a model, an instance, and satisfiable constraints (the AD3 library
    crashes on some constraints if the graph has no edges)"""
    while True:
        m = g.model(kind)
        x = g.instance(m, maxlab=maxlab)
        if not pv.flat_edges(m, x):
            continue
        cons, tups = constraints(g, m, x)
        if cons and satisfiable(g, m, x, cons):
            return m, x, cons, tups


def c19():
    from pystruct.learners import NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM
    g = Gen(pv.SEED * 1000 + 19)
    r = g.r
    for i in range(scale(420, 3500)):
        kind = CONKINDS[i % len(CONKINDS)]
        m, x, cons, tups = con_case(g, kind)
        w = g.weights(m)
        W = wvec(m, w)
        rec().trace("con-%s-%d" % (kind, i))
        with call("constrained inference", m=m, x=x, w=w, cons=cons):
            model = build(m, EXACTC)
            X = px(m, x)
            y = model.inference(X, W, constraints=tups)
            rec().ev("con", m=m, x=x, w=w, cons=cons, y=ints(y))
            y = model.inference(X, W)
            rec().ev("inf", m=m, x=x, w=w, y=ints(y), exact="always")
            y = model.inference(X, W, constraints=tups, relaxed=True)
            if not isinstance(y, tuple):
                rec().ev("con", m=m, x=x, w=w, cons=cons, y=ints(y))
            model = build(m, "ad3+")
            y, en = model.inference(X, W, constraints=tups, relaxed=True, return_energy=True)
            if isinstance(y, tuple):
                rec().ev("conrel", m=m, x=x, w=w, cons=cons, energy=fx(en * m["D"] * m["ps"], 10000.), tol=40)
                model.joint_feature(X, y)
            else:
                rec().ev("con", m=m, x=x, w=w, cons=cons, y=ints(y))
            y = model.inference(X, W, constraints=tups)
            rec().ev("legal", m=m, x=x, y=ints(y), method="ad3+")
    # every sample under its own constraints
    cls = [NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM]
    for i in range(scale(60, 500)):
        kind = CONKINDS[i % len(CONKINDS)]
        m = g.model(kind)
        xs, cs, ts, tries = [], [], [], 0
        while len(xs) < 3:
            x = g.instance(m, maxlab=60)
            if not pv.flat_edges(m, x):
                tries += 1
                if tries > 20:
                    m, xs, cs, ts, tries = g.model(kind), [], [], [], 0
                continue
            cons, tups = constraints(g, m, x, 1, 2)
            if r.random() < .2:
                cons, tups = [], r.choice([None, []])
            if satisfiable(g, m, x, cons):
                xs.append(x)
                cs.append(cons)
                ts.append(tups)
        w = g.weights(m)
        rec().trace("own-%s-%d" % (kind, i))
        with call("constrained prediction", m=m, w=w):
            model = build(m, EXACTC)
            X, W = [px(m, x) for x in xs], wvec(m, w)
            lrn = cls[i % 4](model)
            lrn.w = W
            runs = [model.batch_inference(X, W, constraints=ts), lrn.predict(X, ts), lrn.predict(X, constraints=ts)]
            if i % 6 == 0:
                lrn.n_jobs = 2
                runs.append(lrn.predict(X, ts))
            for ys in runs:
                rec().ev("eq", a=len(ys), b=len(xs))
                for x, c, y in zip(xs, cs, ys):
                    rec().ev("con", m=m, x=x, w=w, cons=c, y=ints(y))
