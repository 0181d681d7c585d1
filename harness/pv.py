"""Shared by the drivers: model/instance generation, calls, recording.

A model is a plain dict `m`, an instance a plain dict `x` (see spec/Models.tla);
build() and px()/py() turn them into pystruct objects.  Everything recorded is
an integer: exact() refuses values that are not (a refused value is recorded as
BADINT, which satisfies no clause).
"""
import io
import json
import os
import random
import signal
import sys
import warnings
import zlib

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

SEED = int(os.environ.get("PV_SEED", "1"))
TIER = os.environ.get("PV_TIER", "quick")
WORK = os.environ.get("PV_WORK", "/tmp")
TREE = os.environ.get("PV_TREE")
THOROUGH = TIER == "thorough"
BADINT = 1000000007


# how much of the thorough tier a quick check can afford
EFFORT = float(os.environ.get("PV_EFFORT", "1"))


def scale(quick, thorough):
    if THOROUGH or isinstance(quick, str):
        return thorough if THOROUGH else quick
    return max(quick, min(thorough, int(quick * EFFORT)))


# ------------------------------------------------------------------ recording
class Malformed(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout("call did not return")


class Recorder(object):
    def __init__(self, path):
        self.f = open(path, "w")
        self.cur = None
        self.n = 0

    def trace(self, id_, key="", **hdr):
        self.end()
        self.cur = dict(hdr, id=str(id_), key=key, evs=[])

    def ev(self, ev, **kw):
        kw["ev"] = ev
        self.cur["evs"].append(jsonable(kw))

    def end(self):
        if self.cur is not None and self.cur["evs"]:
            self.f.write(json.dumps(self.cur, separators=(",", ":")) + "\n")
            self.f.flush()
            self.n += 1
        self.cur = None

    def drop(self):
        """forget the current trace (outside the range of the arithmetic)"""
        self.dropped = getattr(self, "dropped", 0) + 1
        self.cur = None

    def single(self, id_, ev, key="", **kw):
        self.trace(id_, key=key)
        self.ev(ev, **kw)
        self.end()


REC = None


def rec():
    return REC


def jsonable(v):
    if isinstance(v, dict):
        return {k: jsonable(a) for k, a in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(a) for a in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2 ** 30 else BADINT
    if isinstance(v, str):
        return v
    if isinstance(v, (float, np.floating)):
        if float(v) == int(v):
            return jsonable(int(v))
        return BADINT
    raise Malformed("cannot record %r" % (v,))


class call(object):
    """with call('what', **ctx): ...   an exception becomes an event"""
    def __init__(self, what, seconds=60, **ctx):
        self.what, self.seconds, self.ctx, self.ok = what, seconds, ctx, False

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        self.out = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()       # what verbose learners say
        return self

    def __exit__(self, typ, val, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = self.out
        if typ is None:
            self.ok = True
            return False
        if issubclass(typ, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        import traceback
        REC.ev("exception", what=self.what, err="%s: %s" % (typ.__name__, str(val)[:300]),
               tb="".join(traceback.format_tb(tb)[-3:])[-900:], **self.ctx)
        return True


def loud(id_):
    """how much the learner of this trace has to say: that changes nothing it does"""
    return {0: 1, 1: 2, 2: 5, 3: 11}.get(zlib.crc32(str(id_).encode()) % 10, 0)


def exact(v, s=1, tol=1e-6):
    """s*v as an integer (or nested list of them)"""
    if isinstance(v, (list, tuple)):
        return [exact(a, s, tol) for a in v]
    if isinstance(v, np.ndarray):
        if v.ndim:
            return [exact(a, s, tol) for a in v]
        v = v.item()
    try:
        a = float(v) * s
    except (TypeError, ValueError):
        return BADINT
    if not np.isfinite(a) or abs(a) > 2 ** 30:
        return BADINT
    r = int(round(a))
    return r if abs(a - r) <= tol else BADINT


def fx(v, s=65536.):
    """s*v rounded to an integer"""
    if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v):
        return [fx(a, s) for a in v]
    try:
        a = float(v) * s
    except (TypeError, ValueError):
        return BADINT
    if not np.isfinite(a) or abs(a) > 2 ** 30:
        return BADINT
    return int(round(a))


def ints(y):
    """a labeling as a flat list of ints"""
    if isinstance(y, (tuple, list)) and len(y) and isinstance(y[0], np.ndarray):
        raise Malformed("expected a labeling, got %s of arrays" % type(y).__name__)
    a = np.asarray(y)
    if a.dtype == object:
        raise Malformed("expected a labeling, got %r" % (y,))
    return exact(a.ravel() if a.ndim else a.reshape(1))


# ------------------------------------------------------------------ models
def mk(kind, **kw):
    m = {"kind": kind, "F": 2, "S": 2, "pair": "none", "FE": 0, "sym": [], "anti": [],
         "ps": 1, "nb": 4, "spl": [], "L": 0, "edges": [], "directed": False, "rescale": False,
         "lnf": False, "T": 0, "tS": [], "tF": [], "tFE": [], "cw": [], "D": 1}
    m.update(kw)
    k = m["kind"]
    if k == "chain" and "directed" not in kw:
        m["directed"] = True
    if k in ("graph", "chain"):
        m["pair"] = "dir" if m["directed"] else "sym"
    elif k in ("grid", "lgraph", "lgrid", "lnode"):
        m["pair"] = "sym"
    elif k in ("dgrid", "ldgrid"):
        m["pair"] = "ef"
        m["FE"] = 2 if m["nb"] == 4 else 4
    elif k in ("edgefeat", "eflnode"):
        m["pair"] = "ef"
    elif k == "multilabel":
        m["pair"] = "mlab"
        m["S"] = 2
    elif k == "typed":
        m["pair"] = "typed"
        m["S"] = sum(m["tS"])
    elif k == "binary":
        m["S"] = 2
    if k in ("lgraph", "lgrid", "ldgrid"):
        m["S"] = sum(m["spl"])
        m["L"] = len(m["spl"])
    if k in ("lnode", "eflnode"):
        m["S"] = m["L"] + m["H"]
    m["nin"] = m["L"] if k in ("lnode", "eflnode") and not m["lnf"] else m["S"]
    if m["sym"] or m["anti"] or k == "binary":
        m["ps"] = 2
    n_cw = {"lgraph": m["L"], "lgrid": m["L"], "ldgrid": m["L"], "lnode": m["L"],
            "eflnode": m["L"], "multilabel": 2, "binary": 1}.get(k, m["S"])
    if not m["cw"]:
        m["cw"] = [m["D"]] * n_cw
        m["cwgiven"] = False
    else:
        m["cwgiven"] = True
    return m


def build(m, method=None, cw=True):
    from pystruct import models as M
    D = float(m["D"])
    w = np.array(m["cw"]) / D if m["cwgiven"] else None
    k = m["kind"]
    if k == "graph":
        return M.GraphCRF(n_states=m["S"], n_features=m["F"], inference_method=method,
                          class_weight=w, directed=m["directed"])
    if k == "chain":
        return M.ChainCRF(n_states=m["S"], n_features=m["F"], inference_method=method,
                          class_weight=w, directed=m["directed"])
    if k == "grid":
        return M.GridCRF(n_states=m["S"], n_features=m["F"], inference_method=method,
                         neighborhood=m["nb"])
    if k == "dgrid":
        return M.DirectionalGridCRF(n_states=m["S"], n_features=m["F"],
                                    inference_method=method, neighborhood=m["nb"])
    if k == "edgefeat":
        return M.EdgeFeatureGraphCRF(n_states=m["S"], n_features=m["F"], n_edge_features=m["FE"],
                                     inference_method=method, class_weight=w,
                                     symmetric_edge_features=list(m["sym"]),
                                     antisymmetric_edge_features=list(m["anti"]))
    if k == "multilabel":
        return M.MultiLabelClf(n_labels=m["L"], n_features=m["F"],
                               edges=np.array(m["edges"], dtype=int).reshape(-1, 2)
                               if m.get("edgesgiven", True) else None,
                               inference_method=method)
    if k == "multiclass":
        return M.MultiClassClf(n_features=m["F"], n_classes=m["S"], class_weight=w,
                               rescale_C=m["rescale"])
    if k == "binary":
        return M.BinaryClf(n_features=m["F"])
    spl = m["spl"] if len(set(m["spl"])) != 1 or m.get("splseq") else m["spl"][0] if m["spl"] else None
    if k == "lgraph":
        return M.LatentGraphCRF(n_labels=m["L"], n_features=m["F"], n_states_per_label=spl,
                                inference_method=method)
    if k == "lgrid":
        return M.LatentGridCRF(n_labels=m["L"], n_features=m["F"], n_states_per_label=spl,
                               inference_method=method, neighborhood=m["nb"])
    if k == "ldgrid":
        return M.LatentDirectionalGridCRF(n_labels=m["L"], n_features=m["F"], n_states_per_label=spl,
                                          inference_method=method, neighborhood=m["nb"])
    if k == "lnode":
        return M.LatentNodeCRF(n_labels=m["L"], n_features=m["F"], n_hidden_states=m["H"],
                               inference_method=method, class_weight=w,
                               latent_node_features=m["lnf"])
    if k == "eflnode":
        return M.EdgeFeatureLatentNodeCRF(n_labels=m["L"], n_features=m["F"], n_edge_features=m["FE"],
                                          n_hidden_states=m["H"], inference_method=method,
                                          class_weight=w, latent_node_features=m["lnf"],
                                          symmetric_edge_features=list(m["sym"]),
                                          antisymmetric_edge_features=list(m["anti"]))
    if k == "typed":
        lcw = None
        if m["cwgiven"]:
            lcw, o = [], 0
            for s in m["tS"]:
                lcw.append(list(w[o:o + s]))
                o += s
        model = M.NodeTypeEdgeFeatureGraphCRF(m["T"], list(m["tS"]), list(m["tF"]),
                                              np.array(m["tFE"]).reshape(m["T"], m["T"]),
                                              inference_method=method if isinstance(method, str) else "ad3",
                                              l_class_weight=lcw)
        if isinstance(method, tuple):     # the constructor knows plain names only
            model.inference_method = method
        return model
    raise ValueError(k)


def size_jf(m):
    k = m["kind"]
    if k == "binary":
        return m["F"]
    if k == "multiclass":
        return m["S"] * m["F"]
    if k == "multilabel":
        return m["L"] * m["F"] + 4 * len(m["edges"])
    if k == "typed":
        T = m["T"]
        return (sum(s * f for s, f in zip(m["tS"], m["tF"])) +
                sum(m["tFE"][a * T + b] * m["tS"][a] * m["tS"][b] for a in range(T) for b in range(T)))
    p = {"sym": m["S"] * (m["S"] + 1) // 2, "dir": m["S"] ** 2, "ef": m["FE"] * m["S"] ** 2}[m["pair"]]
    return m["nin"] * m["F"] + p


def arr(v, cols, dtype=float):
    return np.array(v, dtype=dtype).reshape(len(v) if cols == 0 else -1, cols)


def px(m, x, fdtype=float, edtype=int):
    """the input object pystruct expects"""
    k = m["kind"]
    if k in ("multilabel", "multiclass", "binary"):
        return np.array(x["feat"], dtype=fdtype)
    if k in ("grid", "dgrid", "lgrid", "ldgrid"):
        return arr(x["feat"], m["F"], fdtype).reshape(x["shape"][0], x["shape"][1], m["F"])
    if k == "chain":
        return arr(x["feat"], m["F"], fdtype)
    if k == "typed":
        T = m["T"]
        return ([arr(f, m["tF"][t], fdtype) for t, f in enumerate(x["tfeat"])],
                [arr(e, 2, edtype) for e in x["tedges"]],
                [arr(f, m["tFE"][b], fdtype) for b, f in enumerate(x["tef"])])
    feat, edges = arr(x["feat"], m["F"], fdtype), arr(x["edges"], 2, edtype)
    if k in ("graph", "lgraph"):
        return (feat, edges)
    if k == "edgefeat":
        return (feat, edges, arr(x["ef"], m["FE"], fdtype))
    if k == "lnode":
        return (feat, edges, x["n"] - x["nv"])
    if k == "eflnode":
        return (feat, edges, arr(x["ef"], m["FE"], fdtype), x["n"] - x["nv"])
    raise ValueError(k)


def py(m, x, y, dtype=int):
    """the label object pystruct expects"""
    k = m["kind"]
    if k in ("multiclass", "binary"):
        return dtype(y[0]) if dtype is int else np.dtype(dtype).type(y[0])
    a = np.array(y, dtype=dtype)
    if k in ("grid", "dgrid", "lgrid", "ldgrid"):
        a = a.reshape(x["shape"])
    return a


TURN = [0]


def stack_y(m, Y):
    """labels of a data set: where they are numbers, an array or a list of them"""
    if m["kind"] == "multilabel":
        return np.array([y for y in Y])
    if m["kind"] not in ("multiclass", "binary"):
        return Y
    TURN[0] += 1
    Y = np.array([y for y in Y])
    return Y if TURN[0] % 3 else list(Y)


# ------------------------------------------------------------------ instances
class Gen(object):
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ints(self, n, lo=-3, hi=3):
        return [self.r.randint(lo, hi) for _ in range(n)]

    def mat(self, n, c, lo=-3, hi=3):
        return [self.ints(c, lo, hi) for _ in range(n)]

    def forest(self, n, p_edge=0.8, orient=True, shuffle=True):
        perm = list(range(n))
        if shuffle:
            self.r.shuffle(perm)
        es = []
        for i in range(1, n):
            if self.r.random() < p_edge:
                e = [perm[self.r.randrange(i)], perm[i]]
                if orient and self.r.random() < .5:
                    e.reverse()
                es.append(e)
        if shuffle:
            self.r.shuffle(es)
        return es

    def graph(self, n, p=.5):
        es = [[a, b] if self.r.random() < .5 else [b, a]
              for a in range(n) for b in range(a + 1, n) if self.r.random() < p]
        self.r.shuffle(es)
        return es

    def cw(self, n, D):
        return [self.r.randint(1, 4 * D) for _ in range(n)]

    def model(self, kind, small=False, **kw):
        r = self.r
        k = dict(F=r.randint(1, 3))
        D = r.choice([1, 2, 4])
        k["D"] = D
        if kind in ("graph", "chain"):
            k.update(S=r.randint(2, 3 if small else 4), directed=r.random() < .5)
            if r.random() < .5:
                k["cw"] = self.cw(k["S"], D)
        elif kind in ("grid", "dgrid"):
            k.update(S=r.randint(2, 3), nb=r.choice([4, 8]))
        elif kind == "edgefeat":
            k.update(S=r.randint(2, 3), FE=r.randint(1, 3))
            if r.random() < .5:
                k["cw"] = self.cw(k["S"], D)
            if r.random() < .6:
                idx = list(range(k["FE"]))
                r.shuffle(idx)
                a = r.randint(0, len(idx))
                b = r.randint(a, len(idx))
                k["sym"], k["anti"] = idx[:a], idx[a:b]
        elif kind == "multilabel":
            L = r.randint(2, 5) if r.random() < .85 else 1
            k.update(L=L)
            es = self.graph(L, .5) if r.random() < .5 else self.forest(L)
            k["edges"] = es
        elif kind == "multiclass":
            k.update(S=r.randint(2, 4), F=r.randint(1, 4))
            if r.random() < .6:
                k["cw"] = self.cw(k["S"], D)
        elif kind == "binary":
            k.update(F=r.randint(1, 4))
        elif kind in ("lgraph", "lgrid", "ldgrid"):
            L = r.randint(1 if kind == "lgraph" else 2, 3)
            k.update(spl=[r.randint(1, 2 if L == 3 else 3) for _ in range(L)], nb=r.choice([4, 8]))
            if sum(k["spl"]) < 2:
                k["spl"] = [2]
            if sum(k["spl"]) > 4:
                k["spl"] = [1, 2] if L == 2 else [2, 1, 1]
            if r.random() < .4:
                k["spl"] = [2, 2]
        elif kind in ("lnode", "eflnode"):
            k.update(L=r.randint(1, 2), H=r.randint(1, 2), lnf=r.random() < .4)
            if k["L"] == 1 and r.random() < .7:
                k["L"] = 2
            if kind == "eflnode":
                k["FE"] = r.randint(1, 2)
            if r.random() < .4:
                k["cw"] = self.cw(k["L"], D)
        elif kind == "typed":
            T = r.randint(1, 3)
            fe = [[0] * T for _ in range(T)]
            for a in range(T):
                for b in range(a, T):
                    fe[a][b] = fe[b][a] = r.randint(1, 2)
            k.update(T=T, tS=[r.randint(1 if T > 1 else 2, 3) for _ in range(T)],
                     tF=[r.randint(1, 3) for _ in range(T)], tFE=[v for row in fe for v in row])
            if r.random() < .5:
                k["cw"] = self.cw(sum(k["tS"]), D)
        k.update(kw)
        if k.get("cw") and "cw" not in kw and kind in ("graph", "chain", "edgefeat", "multiclass"):
            k["cw"] = self.cw(k["S"], k["D"])
        if k.get("cw") and "cw" not in kw and kind in ("lnode", "eflnode"):
            k["cw"] = self.cw(k["L"], k["D"])
        return mk(kind, **k)

    def instance(self, m, forest=None, n=None, lo=-3, hi=3, maxlab=300, shape=None):
        r, k = self.r, m["kind"]
        x = {"n": 0, "nv": 0, "feat": [], "edges": [], "ef": [], "shape": [1, 1]}
        if k in ("multilabel", "multiclass", "binary"):
            x["n"] = m["L"] if k == "multilabel" else 1
            x["feat"] = self.ints(m["F"], lo, hi)
            return x
        S = m["S"]
        cap = 1
        while S > 1 and S ** (cap + 1) <= maxlab:
            cap += 1
        if S == 1:
            cap = 5
        if k in ("grid", "dgrid", "lgrid", "ldgrid"):
            if shape is None:
                opts = [[h, w] for h in range(1, 5) for w in range(1, 5) if h * w <= max(cap, 2)]
                shape = r.choice(opts)
            x["shape"] = list(shape)
            x["n"] = shape[0] * shape[1]
            x["feat"] = self.mat(x["n"], m["F"], lo, hi)
            return x
        if k == "typed":
            T = m["T"]
            while True:
                tn = [r.randint(0 if T > 1 else 1, 3) for _ in range(T)]
                tot = 1
                for t in range(T):
                    tot *= m["tS"][t] ** tn[t]
                if tot <= maxlab and sum(tn):
                    break
            x.update(tn=tn, n=sum(tn),
                     tfeat=[self.mat(tn[t], m["tF"][t], lo, hi) for t in range(T)],
                     tedges=[], tef=[])
            for a in range(T):
                for b in range(T):
                    es = []
                    for i in range(tn[a]):
                        for j in range(tn[b]):
                            if (a != b or i != j) and r.random() < .4:
                                es.append([i, j])
                    r.shuffle(es)
                    x["tedges"].append(es)
                    x["tef"].append(self.mat(len(es), m["tFE"][a * T + b], -2, 2))
            if forest:
                self.prune_typed(m, x)
            return x
        n = n or r.randint(1, max(2, min(cap, 6)))
        x["n"] = n
        if k in ("lnode", "eflnode"):
            n = max(n, 2)
            x["n"] = n
            x["nv"] = r.randint(1, n - 1) if r.random() < .85 else n
        if k == "chain":
            x["edges"] = [[i, i + 1] for i in range(n - 1)]
        elif forest or (forest is None and r.random() < .5):
            x["edges"] = self.forest(n)
        else:
            x["edges"] = self.graph(n)
        if k in ("lnode", "eflnode") and not x["edges"]:
            x["edges"] = [[0, n - 1]]
        nf = x["nv"] if k in ("lnode", "eflnode") and not m["lnf"] else n
        x["feat"] = self.mat(nf, m["F"], lo, hi)
        if m["pair"] == "ef":
            x["ef"] = self.mat(len(x["edges"]), m["FE"], -2, 2)
        return x

    def big(self, m, n=None):
        """a large instance whose graph can be eliminated with small tables"""
        r, k = self.r, m["kind"]
        n = n or r.choice([12, 25, 40, 60])
        if k in GRIDK:
            S = m["S"]
            sh = r.choice([[1, min(n, 30)], [min(n, 30), 1], [2, r.randint(4, 6)], [r.randint(4, 6), 2]]
                          + ([[3, 4]] if S == 2 else []))
            return self.instance(m, shape=sh)
        if k == "typed":
            T = m["T"]
            x = self.instance(m)
            tn = [r.randint(2, 6) for _ in range(T)]
            x.update(tn=tn, n=sum(tn), tfeat=[self.mat(tn[t], m["tF"][t]) for t in range(T)], tedges=[], tef=[])
            for a in range(T):
                for b in range(T):
                    es = [[i, j] for i in range(tn[a]) for j in range(tn[b])
                          if (a != b or i != j) and r.random() < .4]
                    r.shuffle(es)
                    x["tedges"].append(es)
                    x["tef"].append(self.mat(len(es), m["tFE"][a * T + b], -2, 2))
            self.prune_typed(m, x)
            return x
        x = self.instance(m, n=n)
        if k in ("multilabel", "multiclass", "binary"):
            return x
        if k == "chain":
            return x
        shape = r.choice(["star", "path", "tree", "caterpillar", "broom"])
        perm = list(range(n))
        if r.random() < .5:
            r.shuffle(perm)
        par = {"star": lambda i: 0, "path": lambda i: i - 1, "tree": lambda i: r.randrange(i),
               "caterpillar": lambda i: i - 1 if i < n // 2 else i - n // 2,
               "broom": lambda i: i - 1 if i < n // 3 else n // 3 - 1}[shape]
        es = [[perm[par(i)], perm[i]][::r.choice([1, -1])] for i in range(1, n)]
        if k in ("lnode", "eflnode") and r.random() < .6:      # one hidden node for all the others
            x["nv"] = n - 1
            es = [[i, n - 1][::r.choice([1, -1])] for i in range(n - 1)]
        r.shuffle(es)
        x["edges"] = es
        nf = x["nv"] if k in ("lnode", "eflnode") and not m["lnf"] else n
        x["feat"] = self.mat(nf, m["F"])
        if m["pair"] == "ef":
            x["ef"] = self.mat(len(es), m["FE"], -2, 2)
        return x

    def prune_typed(self, m, x):
        """drop edges until the flat graph is a forest"""
        T = m["T"]
        off = [sum(x["tn"][:t]) for t in range(T)]
        comp = list(range(x["n"]))
        for b in range(T * T):
            keep, ef = [], []
            for e, f in zip(x["tedges"][b], x["tef"][b]):
                u, v = comp[off[b // T] + e[0]], comp[off[b % T] + e[1]]
                if u != v:
                    comp = [v if c == u else c for c in comp]
                    keep.append(e)
                    ef.append(f)
            x["tedges"][b], x["tef"][b] = keep, ef

    def dom(self, m, x):
        k = m["kind"]
        if k == "binary":
            return [[-1, 1]]
        if k == "typed":
            out, o = [], 0
            for t in range(m["T"]):
                out += [list(range(o, o + m["tS"][t]))] * x["tn"][t]
                o += m["tS"][t]
            return out
        if k in ("lnode", "eflnode"):
            return [list(range(m["L"]))] * x["nv"] + [list(range(m["L"], m["S"]))] * (x["n"] - x["nv"])
        return [list(range(m["S"]))] * x["n"]

    def labeling(self, m, x):
        return [self.r.choice(d) for d in self.dom(m, x)]

    def visible(self, m, x, h):
        k = m["kind"]
        if k in ("lgraph", "lgrid", "ldgrid"):
            mp = [l for l, s in enumerate(m["spl"]) for _ in range(s)]
            return [mp[a] for a in h]
        if k in ("lnode", "eflnode"):
            return h[:x["nv"]]
        return h

    def weights(self, m, lo=-4, hi=4):
        """integer weights; symmetric/antisymmetric edge features get weights
        with that symmetry (joint features span only those)"""
        w = self.ints(size_jf(m), lo, hi)
        if m["sym"] or m["anti"]:
            S, o = m["S"], m["nin"] * m["F"]
            for q in m["sym"] + m["anti"]:
                for a in range(S):
                    for b in range(a + 1):
                        i, j = o + q * S * S + a * S + b, o + q * S * S + b * S + a
                        w[j] = w[i] if q in m["sym"] else -w[i]
                        if q in m["anti"] and a == b:
                            w[i] = 0
        return w


def wvec(m, w):
    return np.array(w, dtype=float) / m["D"]


KINDS = ["graph", "chain", "grid", "dgrid", "edgefeat", "multilabel", "multiclass", "binary",
         "lgraph", "lgrid", "ldgrid", "lnode", "eflnode", "typed"]
GRIDK = ("grid", "dgrid", "lgrid", "ldgrid")
LATK = ("lgraph", "lgrid", "ldgrid", "lnode", "eflnode")


def emap(*dicts):
    out = {}
    for d in dicts:
        out.update(d)
    return out


def is_forest(n, edges):
    comp = list(range(n))
    for a, b in edges:
        if comp[a] == comp[b]:
            return False
        u, v = comp[a], comp[b]
        comp = [v if c == u else c for c in comp]
    return True


def grid_edges(h, w, nb):
    es = [[r * w + c, r * w + c + 1] for r in range(h) for c in range(w - 1)]
    es += [[r * w + c, (r + 1) * w + c] for r in range(h - 1) for c in range(w)]
    if nb == 8:
        es += [[(r + 1) * w + c, r * w + c + 1] for r in range(h - 1) for c in range(w - 1)]
        es += [[r * w + c, (r + 1) * w + c + 1] for r in range(h - 1) for c in range(w - 1)]
    return es


def flat_edges(m, x):
    k = m["kind"]
    if k in GRIDK:
        return grid_edges(x["shape"][0], x["shape"][1], m["nb"])
    if k == "multilabel":
        return m["edges"]
    if k in ("multiclass", "binary"):
        return []
    if k == "typed":
        T, off = m["T"], [sum(x["tn"][:t]) for t in range(m["T"])]
        return [[off[b // T] + e[0], off[b % T] + e[1]] for b in range(T * T) for e in x["tedges"][b]]
    return x["edges"]


def forest_inst(m, x):
    return is_forest(x["n"], flat_edges(m, x))


def order(n, edges):
    """nodes (from 1), those with the fewest neighbours left first"""
    nb = {i: set() for i in range(n)}
    for a, b in edges:
        if a != b:
            nb[a].add(b)
            nb[b].add(a)
    out = []
    while nb:
        k = min(nb, key=lambda i: (len(nb[i]), i))
        for a in nb[k]:
            nb[a] |= nb[k]
            nb[a] -= {a, k}
        del nb[k]
        out.append(k + 1)
    return out


def nlab(m, x):
    t = 1
    for d in Gen(0).dom(m, x):
        t *= len(d)
    return t


STATUS = ["none"]


def watch_ad3():
    """record what AD3 itself says about its last answer"""
    import ad3
    for name in ("general_graph", "general_constrained_graph"):
        def f(*a, _o=getattr(ad3, name), **k):
            STATUS[0] = "none"
            res = _o(*a, **k)
            STATUS[0] = str(res[-1])
            return res
        setattr(ad3, name, f)


def status():
    """status of the last AD3 call since the last question"""
    s, STATUS[0] = STATUS[0], "none"
    return s
