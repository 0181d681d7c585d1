"""C20: what does not fit is refused, what fits is accepted.

The cases are those TLC enumerates (spec/MCValid.tla, one field off), and random
combinations of them (two or three fields off); each is carried out with real
models and data, in a child process (a misfit may end in native code)."""
import json
import os
import pickle

import numpy as np

import pv
from pv import Gen, LATK, call, rec, scale
from tlcrun import tlc

FLAT = ("multiclass", "binary", "multilabel")
GRIDS = ("grid", "dgrid", "lgrid", "ldgrid")


# ------------------------------------------------------------------ one type
class Case1(object):
    def __init__(self, c, r):
        self.c, self.r, self.k = c, r, c["kind"]
        self.rs = np.random.RandomState(r.randrange(1000))
        self.off = r.choice([0, 1, None])        # which sample is off (None: both)
        if c["ops"][-1] == "init" or self.k in FLAT:
            self.off = None
        self.data()

    def num(self, *sh):
        return self.rs.randint(-3, 4, size=sh).astype(float)

    def data(self):
        c, k = self.c, self.k
        self.X, self.Y, self.H = [], [], []
        n1 = c["N1"]
        if k in ("multiclass", "binary"):
            self.X = self.num(4, c["F1"])
            self.Y = np.array([0, 1, 2, 0, 1, 2][:4]) % n1 if k == "multiclass" else np.array([-1, 1, 1, -1])
            return
        if k == "multilabel":
            self.X = self.num(4, c["F1"])
            self.Y = np.array([[0] * n1, [1] * n1, [1] + [0] * (n1 - 1), [0] * (n1 - 1) + [1]])
            return
        for i in range(2):
            bad = self.off is None or self.off == i
            f1 = c["F1"] if bad or c["F0"] == 0 else c["F0"]
            fe1 = c["FE1"] if bad or c["FE0"] == 0 else c["FE0"]
            de = c["dE"] if bad else 0
            if k in GRIDS:
                self.X.append(self.num(2, 2 + i, f1))
                y = np.arange(4 + 2 * i) % n1
                self.Y.append(y.reshape(2, -1))
                self.H.append(2 * self.Y[-1])
                continue
            y = np.arange(4 + i) % n1
            edges = np.array([[0, 1], [1, 2], [2, 3]])
            if k == "chain":
                self.X.append(self.num(len(y), f1))
            elif k in ("graph", "lgraph"):
                self.X.append((self.num(len(y), f1), edges))
            elif k == "edgefeat":
                self.X.append((self.num(len(y), f1), edges, self.num(3 + de, fe1)))
            else:
                hid = 2
                edges = np.array([[0, len(y)], [1, len(y) + 1]])
                X = (self.num(len(y), f1), edges)
                self.X.append(X + ((hid,) if k == "lnode" else (self.num(2 + de, fe1), hid)))
            self.Y.append(y)
            self.H.append(2 * y if k == "lgraph" else np.hstack([y, [n1, n1 + 1]]) if k in LATK else y)

    def build(self):
        from pystruct import models as M
        c, k, r = self.c, self.k, self.r
        o = lambda v: v or None
        meth = None if c["meth"] == "known" else r.choice(["nothing", ("nothing", {}), "AD3", "maxproduct"])
        cw = None if c["cw"] < 0 else r.choice([np.array, list])([1., 2., 3.][:c["cw"]])
        if k in ("graph", "chain"):
            cls = M.GraphCRF if k == "graph" else M.ChainCRF
            self.m = cls(n_states=o(c["N0"]), n_features=o(c["F0"]), inference_method=meth, class_weight=cw,
                         directed=r.random() < .5)
        elif k == "grid":
            self.m = M.GridCRF(n_states=o(c["N0"]), n_features=o(c["F0"]), inference_method=meth, neighborhood=c["nb"])
        elif k == "dgrid":
            self.m = M.DirectionalGridCRF(n_states=o(c["N0"]), n_features=o(c["F0"]), inference_method=meth, neighborhood=c["nb"])
        elif k == "edgefeat":
            self.m = M.EdgeFeatureGraphCRF(n_states=o(c["N0"]), n_features=o(c["F0"]), n_edge_features=o(c["FE0"]),
                                           inference_method=meth, class_weight=cw, symmetric_edge_features=list(c["sym"]),
                                           antisymmetric_edge_features=list(c["anti"]))
        elif k == "multilabel":
            self.m = M.MultiLabelClf(n_labels=o(c["N0"]), n_features=o(c["F0"]), inference_method=meth)
        elif k == "multiclass":
            self.m = M.MultiClassClf(n_features=o(c["F0"]), n_classes=o(c["N0"]), class_weight=cw)
        elif k == "binary":
            self.m = M.BinaryClf(n_features=o(c["F0"]))
        elif k in ("lgraph", "lgrid", "ldgrid"):
            cls = {"lgraph": M.LatentGraphCRF, "lgrid": M.LatentGridCRF, "ldgrid": M.LatentDirectionalGridCRF}[k]
            kw = {} if k == "lgraph" else dict(neighborhood=c["nb"])
            self.m = cls(n_labels=o(c["N0"]), n_features=o(c["F0"]), n_states_per_label=2, inference_method=meth, **kw)
        elif k == "lnode":
            self.m = M.LatentNodeCRF(n_labels=o(c["N0"]), n_features=o(c["F0"]), n_hidden_states=2, inference_method=meth,
                                     class_weight=cw)
        else:
            self.m = M.EdgeFeatureLatentNodeCRF(n_labels=c["N0"], n_features=c["F0"], n_edge_features=c["FE0"],
                                                n_hidden_states=2, inference_method=meth, class_weight=cw,
                                                symmetric_edge_features=list(c["sym"]),
                                                antisymmetric_edge_features=list(c["anti"]))

    def w(self):
        return self.num(int(self.m.size_joint_feature) + self.c["dw"])

    def sample(self):
        i = self.off or 0
        lat = self.k in LATK
        return self.X[i], (self.H if lat else self.Y)[i], self.Y[i]

    def run(self):
        from pystruct import learners as L
        for op in self.c["ops"]:
            if op == "build":
                self.build()
            elif op == "init":
                self.m.initialize(self.X, self.Y)
            elif op == "jf":
                x, h, _ = self.sample()
                self.m.joint_feature(x, h)
            elif op == "inf":
                self.m.inference(self.sample()[0], self.w())
            elif op == "aug":
                x, h, _ = self.sample()
                self.m.loss_augmented_inference(x, h, self.w())
            elif op == "bjf":
                self.m.batch_joint_feature(self.X, self.H if self.k in LATK else self.Y)
            elif op == "binf":
                self.m.batch_inference(self.X, self.w())
            elif op == "baug":
                self.m.batch_loss_augmented_inference(self.X, self.H if self.k in LATK else self.Y, self.w())
            elif op == "lat":
                x, _, y = self.sample()
                self.m.latent(x, y, self.w())
            elif op == "fit":
                if self.k in LATK:
                    lrn = L.LatentSSVM(self.r.choice([L.NSlackSSVM, L.OneSlackSSVM])(self.m, max_iter=2), latent_iter=2)
                    lrn.fit(self.X, self.Y, H_init=self.H)
                    return
                cls = self.r.choice([L.NSlackSSVM, L.OneSlackSSVM, L.SubgradientSSVM, L.FrankWolfeSSVM, L.StructuredPerceptron])
                cls(self.m, max_iter=2).fit(self.X, self.Y)


# ------------------------------------------------------------------ several types
class Case2(object):
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.rs = np.random.RandomState(r.randrange(1000))

    def num(self, *sh):
        return self.rs.randint(-3, 4, size=sh).astype(float)

    def build(self):
        from pystruct.models import NodeTypeEdgeFeatureGraphCRF
        c = self.c
        fe = {"right": [[1, 2], [2, 1]], "shape": [[1, 2]], "asymmetric": [[1, 2], [1, 1]]}[c["fe"]]
        meth = self.r.choice(["ad3", "ad3+"]) if c["meth"] == "known" else self.r.choice(["lp", "nothing", "max-product"])
        cw = [self.r.choice([list, np.array])(np.ones(n)) for n in c["cw"]] or None
        self.m = NodeTypeEdgeFeatureGraphCRF(c["T"], list(c["tS"]), list(c["tF"]), self.r.choice([list, np.array])(fe),
                                             inference_method=meth, l_class_weight=cw)

    def instance(self, off=True):
        c = self.c
        d = c if off else dict(c, dN=0, dF=[0, 0], dA=0, cols=2, dFE=0, dE=0, none="no", src=0, dst=0, dY=0,
                               lab=0 if c["t"] == 1 else 2)
        feats = [self.num(n, f + df) for n, f, df in zip(c["tn"], [1, 2], d["dF"])]
        if d["dN"] > 0:
            feats.append(self.num(1, 1))
        elif d["dN"] < 0:
            feats.pop()
        edges, ef = [], []
        for a in (1, 2):
            for b in (1, 2):
                nfe = 1 if a == b else 2
                if (a, b) == (c["a"], c["b"]):
                    e = np.array([[d["src"], d["dst"], 0][:d["cols"]]] * 2)
                    f = self.num(2 + d["dE"], nfe + d["dFE"])
                    if self.keep:                     # a second edge which is fine
                        e[1, :2] = 0
                    edges.append(None if d["none"] == "edges" else e)
                    ef.append(None if d["none"] == "features" else f)
                elif self.others:
                    edges.append(np.array([[0, 1]]))
                    ef.append(self.num(1, nfe))
                else:
                    edges.append(None)
                    ef.append(None)
        if d["dA"] < 0:
            edges.pop(), ef.pop()
        elif d["dA"] > 0:
            edges.append(np.array([[0, 1]])), ef.append(self.num(1, 1))
        y = np.array([0, 1, 0][:c["tn"][0]] + [2, 3, 4][:c["tn"][1]])
        y[0 if c["t"] == 1 else c["tn"][0]] = d["lab"]
        if d["dY"]:
            y = y[:-1] if d["dY"] < 0 else np.hstack([y, [2]])
        return (feats, edges, ef), y

    def run(self):
        from pystruct import learners as L
        r = self.r
        self.keep, self.others = r.random() < .5, r.random() < .5
        if self.c["cols"] < 2:
            self.keep = False
        for op in self.c["ops"]:
            if op == "build":
                self.build()
                continue
            x, y = self.instance()
            good = self.instance(False)
            w = self.num(int(self.m.size_joint_feature) + self.c["dw"])
            if op == "init":
                how = r.randrange(4)
                if how == 0:
                    self.m.initialize(x, y)
                elif how == 1:
                    self.m.initialize([x], [y])
                elif how == 2:
                    self.m.initialize([good[0], x], [good[1], y])
                else:
                    self.m.initialize([x, good[0]], [y, good[1]])
            elif op == "jf":
                self.m.joint_feature(x, y)
            elif op == "inf":
                self.m.inference(x, w)
            elif op == "aug":
                self.m.loss_augmented_inference(x, y, w)
            elif op == "fit":
                XY = [good, (x, y)]
                r.shuffle(XY)
                cls = r.choice([L.NSlackSSVM, L.OneSlackSSVM, L.SubgradientSSVM])
                cls(self.m, max_iter=2).fit([a for a, _ in XY], [b for _, b in XY])


# ------------------------------------------------------------------ parameters
class Case3(object):
    def __init__(self, c, r):
        self.c, self.r = c, r

    def run(self):
        from pystruct import inference as I, learners as L, models as M, utils as U
        from drv_step import threading_backend
        c, what = self.c, self.c["what"]
        rs = np.random.RandomState(1)
        X, Y = rs.randint(-3, 4, size=(4, 2)).astype(float), np.array([0, 1, 1, 0])
        m = M.MultiClassClf(n_features=2, n_classes=2)
        if what == "nslack":
            L.NSlackSSVM(m, max_iter=2, batch_size=c["batch"]).fit(X, Y)
        elif what == "subgradient":
            with threading_backend():
                L.SubgradientSSVM(m, max_iter=2, batch_size=None if c["batch"] == -2 else c["batch"], n_jobs=c["jobs"]).fit(X, Y)
        elif what == "frankwolfe":
            L.FrankWolfeSSVM(m, max_iter=2, sample_method=c["how"]).fit(X, Y)
        elif what == "perceptron":
            L.StructuredPerceptron(m, max_iter=2, average=c["batch"]).fit(X, Y)
        elif what in ("solver", "energy"):
            un = rs.randint(-3, 4, size=(3, c["s"])).astype(float)
            sh = (c["s1"], c["s2"]) if c["rows"] < 0 else (c["rows"], c["s1"], c["s2"])
            pw = rs.randint(-3, 4, size=sh).astype(float) * (c["how"] != "unary")
            E = np.array([[0, 1], [1, 2]])
            if what == "energy":
                I.compute_energy(un, pw, E, np.array([0, 1, 1]))
            else:
                I.inference_dispatch(un, pw, E, self.r.choice([c["how"], (c["how"], {})]))
        elif what == "edges":
            U.make_grid_edges(np.zeros((2, 3)), neighborhood=c["batch"], return_lists=self.r.random() < .5)
        elif what == "perlabel":
            M.LatentGraphCRF(n_labels=c["s"], n_features=2, n_states_per_label=[2] * c["batch"])
        else:
            raise KeyError(what)


def attempt(c, seed):
    g = Gen(seed)
    case = {1: Case1, 2: Case2, 3: Case3}[c["form"]](c, g.r)
    try:
        with np.errstate(all="ignore"):
            case.run()
        return "result", ""
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return "refused", "%s: %s" % (type(e).__name__, str(e)[:150])


def attempts(cases, seeds, seconds=20):
    """outcomes, from children that may die"""
    import select
    import signal
    out, i = [], 0
    while i < len(cases):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for c, s in zip(cases[i:], seeds[i:]):
                    d = pickle.dumps(attempt(c, s))
                    os.write(wr, len(d).to_bytes(4, "little") + d)
            finally:
                os._exit(0)
        os.close(wr)
        buf, first = b"", i
        while True:
            ok, _, _ = select.select([rd], [], [], seconds)
            if not ok:
                os.kill(pid, signal.SIGKILL)
                break
            d = os.read(rd, 1 << 16)
            if not d:
                break
            buf += d
            while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[:4], "little"):
                n = int.from_bytes(buf[:4], "little")
                out.append(pickle.loads(buf[4:4 + n]))
                buf = buf[4 + n:]
        os.close(rd)
        os.waitpid(pid, 0)
        i = len(out)
        if i < len(cases):
            out.append(("crashed", "the process died or did not return (after %d)" % (i - first)))
            i += 1
    return out


SAME = {1: ("kind", "ops"), 2: ("tn", "a", "b", "t", "ops")}


def merged(g, pool, base):
    """two or three deviations at once"""
    r = g.r
    c = dict(base)
    for _ in range(r.randint(2, 3)):
        d = r.choice(pool)
        for f in d:
            if d[f] != base[f]:
                c[f] = d[f]
    return c


def sensible(c):
    if c["form"] != 1:
        return len(c["tS"]) == len(c["tF"]) == 2 or c["ops"] == ["build"]
    init = "init" in c["ops"] or "fit" in c["ops"]
    told = c["N0"] and c["F0"] and (c["kind"] not in ("edgefeat", "eflnode") or c["FE0"])
    return (told or init or c["ops"] == ["build"]) and (c["N1"] == 2 or init)


def c20():
    g = Gen(pv.SEED * 1000 + 20)
    r = g.r
    path = os.path.join(pv.WORK, "cases.ndjson")
    tlc("MCValid", "MCValidOne", env=dict(os.environ, OUT=path))
    cases = [json.loads(l) for l in open(path)]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    groups = {}
    for c in cases:
        if c["form"] in SAME:
            groups.setdefault((c["form"],) + tuple(json.dumps(c[f]) for f in SAME[c["form"]]), []).append(c)
    one = [c for c in cases if c["form"] != 2]
    two = [c for c in cases if c["form"] == 2]
    r.shuffle(two)
    todo = one + two[:scale(2500, len(two))]
    for k in sorted(groups):
        pool = groups[k]
        # the base is what most of the group agree on
        base = {f: max((json.dumps(c[f]) for c in pool), key=[json.dumps(c[f]) for c in pool].count) for c in pool[:1] for f in c}
        base = {f: json.loads(v) for f, v in base.items()}
        for _ in range(scale(8, 60)):
            c = merged(g, pool, base)
            if sensible(c):
                todo.append(c)
    r.shuffle(todo)
    seeds = [r.randrange(10 ** 6) for _ in todo]
    for k in range(0, len(todo), 200):
        rec().trace("cases-%d" % k)
        for c, (out, err) in zip(todo[k:k + 200], attempts(todo[k:k + 200], seeds[k:k + 200])):
            rec().ev("case", c=c, out=out, err=err)
        rec().end()
    initialize(g)


def initialize(g):
    """fit(initialize=False) takes the model as it is, fit() makes it fit the data (or refuses them)"""
    from pystruct import learners as ln
    from pystruct.models import ChainCRF, GraphCRF, LatentGraphCRF, MultiClassClf
    r = g.r
    kinds = [("one-slack", lambda m: ln.OneSlackSSVM(m, max_iter=5)), ("n-slack", lambda m: ln.NSlackSSVM(m, max_iter=5)),
             ("subgradient", lambda m: ln.SubgradientSSVM(m, max_iter=3)), ("frank-wolfe", lambda m: ln.FrankWolfeSSVM(m, max_iter=3, random_state=0)),
             ("perceptron", lambda m: ln.StructuredPerceptron(m, max_iter=3)),
             ("latent", lambda m: ln.LatentSSVM(ln.OneSlackSSVM(m, max_iter=5), latent_iter=2)),
             ("subgradient-latent", lambda m: ln.SubgradientLatentSSVM(m, max_iter=3))]
    for name, make in kinds:
        for i in range(scale(2, 10)):
            lat = "latent" in name
            if lat:
                mk = lambda: LatentGraphCRF(n_states_per_label=[2, 1, 1], inference_method="max-product")
            else:
                mk = r.choice([lambda: ChainCRF(inference_method="max-product"), MultiClassClf,
                               lambda: GraphCRF(inference_method="max-product")])
            flat = isinstance(mk(), MultiClassClf)
            n = 6
            X, Y = [], []
            for k in range(n):
                y = [k % 3] if flat else [k % 2, r.randrange(2), (k // 2) % 3]
                f = np.array(g.ints(2, -3, 3) if flat else [g.ints(2, -3, 3) for _ in y], float)
                e = np.array([[0, 1], [1, 2]])
                X.append(f if flat or isinstance(mk(), ChainCRF) else (f, e))
                Y.append(y[0] if flat else np.array(y))
            few = [k for k in range(n) if np.max(Y[k]) < 2]
            pick = (lambda idx: (np.array([X[k] for k in idx]), np.array([Y[k] for k in idx]))) if flat else \
                (lambda idx: ([X[k] for k in idx], [Y[k] for k in idx]))
            rec().trace("initialize-%s-%d" % (name, i))
            with call("fit"):
                def weights(data, init):
                    m = mk()
                    m.initialize(*pick(range(n)))
                    l = make(m)
                    np.random.seed(0)
                    H = {"H_init": [2 * np.minimum(y, 1) + np.maximum(y - 1, 0) for y in data[1]]} if name.startswith("latent") else {}
                    l.fit(data[0], data[1], initialize=init, **H)
                    return np.array(l.w)
                full = pick(range(n))
                same = np.array_equal(weights(full, False), weights(full, True))
                rec().ev("fact", name="prepared-model-same-result", ok=same)
                part = pick(few)
                size = weights(full, False).shape
                rec().ev("fact", name="initialize-false-leaves-model", ok=weights(part, False).shape == size)
                try:
                    weights(part, True)
                    refused = False
                except ValueError:
                    refused = True
                rec().ev("fact", name="initialize-checks-data", ok=refused)
            rec().end()
