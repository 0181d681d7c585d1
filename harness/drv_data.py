"""C23: data sets"""
import os
import pickle

import numpy as np

import pv
from pv import Gen, call, exact, fx, rec, scale

SEEDED = {"easy": "seed", "bars": "random_seed", "crosses": "seed", "simple": "seed", "blocks": "seed", "blocks_multinomial": "seed"}
FIXED = ["checker", "big_checker", "hole", "xs", "easy_explicit", "crosses_explicit", "crosses_latent"]


def fn(g):
    from pystruct.datasets import synthetic_grids as S
    return {"simple": S.make_simple_2x2, "hole": S.generate_square_with_hole}.get(g) or getattr(S, "generate_" + g)


def grids(X, K):
    X = np.asarray(X)
    if X.ndim == 3 and K == 1:
        X = X[..., None]
    return [[[exact(c) for c in r] for r in x] for x in X]


def is_int(Y):
    return all(np.asarray(y).dtype.kind in "iu" for y in Y)


def painting(g, name, i):
    r = g.r
    p = dict(size=8, box=3, separate=True, n_crosses=2)
    kw = {}
    if name in ("easy", "bars"):
        p["size"], p["box"] = r.choice([(8, 3), (8, 3), (7, 2), (6, 3), (6, 4), (10, 3), (9, 5)])
        kw = {"total_size": p["size"], ("box_size" if name == "easy" else "bars_size"): p["box"]}
        if name == "bars":
            p["separate"] = kw["separate_labels"] = r.random() < .6
    elif name == "hole":
        p["size"] = kw["total_size"] = r.choice([8, 5, 6, 9])
    elif name == "crosses":
        p["size"], p["n_crosses"] = r.choice([(10, 2), (10, 1), (11, 2), (7, 1), (8, 1)])
        kw = dict(total_size=p["size"], n_crosses=p["n_crosses"])
    elif name == "crosses_explicit":
        p["size"], p["n_crosses"] = r.choice([(9, 2), (9, 1), (8, 2), (6, 1)])
        kw = dict(size=p["size"], n_crosses=p["n_crosses"])
    elif name == "easy_explicit":
        p["size"] = 9
    elif name == "simple":
        p["size"] = 4
    n = r.choice([1, 1, 2, 3, 4])
    noise = r.choice([0, 0, 1, 2, 3, 5, 30])
    kw["n_samples"] = n
    kw["n_flips" if name == "simple" else "noise"] = noise
    if name in SEEDED:
        kw[SEEDED[name]] = r.randint(0, 10 ** 6)
    rec().trace("%s-%d" % (name, i), args=str(sorted(kw.items())))
    with call(name, 20):
        np.random.seed(r.randint(0, 10 ** 6))
        X, Y = fn(name)(**kw)
        rec().ev("shapes", g=name, p=p, n=n, noise=noise, yint=is_int(Y), X=grids(X, 1 if name == "simple" else 0),
                 Y=[exact(y) for y in Y])
        again(name, kw, X, Y)


def again(name, kw, X, Y):
    """the same call gives the same data, whatever happened to the global generator"""
    np.random.seed(12345)
    np.random.rand(7)
    X2, Y2 = fn(name)(**kw)
    rec().ev("fact", name="same-data", ok=np.array_equal(np.asarray(X), np.asarray(X2)) and
             np.array_equal(np.asarray(Y), np.asarray(Y2)))
    s = SEEDED.get(name)
    if s and kw.get("noise", kw.get("n_flips", 0)) and kw["n_samples"] > 2:
        X3, Y3 = fn(name)(**dict(kw, **{s: kw[s] + 1}))
        # (flips may all hit what is there already)
        if kw.get("noise", kw.get("n_flips", 0)) >= 5 or name.startswith("blocks"):
            rec().ev("fact", name="seed-matters", ok=not (np.array_equal(np.asarray(X), np.asarray(X3)) and
                                                          np.array_equal(np.asarray(Y), np.asarray(Y3))))


def pattern(g, name, i):
    r = g.r
    p = dict(size_x=12, n_fields=3, field_size=3)
    kw = dict(n_samples=r.choice([1, 2, 3]))
    if name == "big_checker":
        p["n_fields"], p["field_size"] = r.choice([(3, 3), (2, 3), (4, 2), (1, 2), (5, 1), (3, 4)])
        kw.update(n_fields=p["n_fields"], field_size=p["field_size"])
    elif name == "big_checker_extended":
        p["n_fields"], p["field_size"] = r.choice([(6, 3), (4, 3), (2, 3)])
        kw.update(n_fields=p["n_fields"], field_size=p["field_size"])
    elif name in ("blocks_multinomial", "checker_multinomial"):
        p["size_x"] = kw["size_x"] = r.choice([12, 12, 6, 7, 8, 10, 13, 3])
    seed = r.randint(0, 10 ** 6)
    if name in SEEDED:
        kw["seed"] = seed
    unit = 100. if name == "big_checker_extended" else 1.
    f = fn(name)

    def data(noise):
        np.random.seed(seed)
        return f(noise=noise, **kw)
    rec().trace("%s-%d" % (name, i), args=str(sorted(kw.items())))
    with call(name, 20):
        X0, Y = data(0)
        a = r.choice([.5, 1., 1.5])
        Xa, Ya = data(a)
        Xb, Yb = data(2 * a)
        flat = (np.asarray(Xa) - X0).ravel() / a / unit
        flat2 = (np.asarray(Xb) - X0).ravel() / (2 * a) / unit
        use = flat != 0 if name == "checker" else np.ones(len(flat), bool)
        many = kw["n_samples"] * np.asarray(Y[0]).size >= 200
        rec().ev("pattern", g=name, p=p, n=kw["n_samples"], yint=is_int(Y), X0=grids(np.asarray(X0) / unit, 0),
                 Y=[exact(y) for y in Y], r1=fx(flat[use][:900]) if many else [], r2=fx(flat2[use][:900]) if many else [])
        rec().ev("fact", name="labels-without-noise", ok=np.array_equal(Y, Ya) and np.array_equal(Y, Yb))
        if name in SEEDED or name in FIXED:
            again(name, dict(kw, noise=a), Xa, Ya)


def loaders(g):
    from pystruct import datasets
    folder = os.path.dirname(datasets.__file__)
    assert os.path.abspath(folder).startswith(os.path.abspath(pv.TREE) + os.sep)
    rec().trace("snakes")
    with call("load_snakes"):
        d = datasets.load_snakes()
        for part in ("train", "test"):
            X, Y = d["X_" + part], d["Y_" + part]
            rec().ev("fact", name="snakes-" + part, ok=len(X) == len(Y) > 0 and
                     all(x.shape[:2] == y.shape and y.dtype.kind in "iu" and y.min() >= 0 and y.max() <= 10 for x, y in zip(X, Y)))
        d2 = datasets.load_snakes()
        rec().ev("fact", name="same-data", ok=all(np.array_equal(a, b) for a, b in zip(d["X_train"], d2["X_train"])))
    # the letters and scene files are not part of the repository: stand-ins, in the private copy
    for k in range(3):
        words = [np.array(g.mat(g.r.randint(1, 4), 128, 0, 1)) for _ in range(3)]
        with open(os.path.join(folder, "letters.pickle"), "wb") as f:
            pickle.dump({"data": words, "labels": [np.arange(len(w)) for w in words], "folds": [0, 1, 2]}, f, 2)
        rec().trace("letters-%d" % k)
        with call("load_letters"):
            d = datasets.load_letters()
            for w, img in zip(words, d["images"]):
                rec().ev("letters", word=exact(w), img=exact(img))
            rec().ev("fact", name="letters-kept", ok=len(d["images"]) == 3 and all(np.array_equal(a, b) for a, b in zip(d["data"], words)))
    with open(os.path.join(folder, "scene.pickle"), "wb") as f:
        pickle.dump({"X_train": np.arange(6).reshape(3, 2), "y_train": np.eye(3)}, f, 2)
    rec().trace("scene")
    with call("load_scene"):
        d = datasets.load_scene()
        rec().ev("fact", name="scene-kept", ok=sorted(d) == ["X_train", "y_train"] and np.array_equal(d["X_train"], np.arange(6).reshape(3, 2)))


def c23():
    g = Gen(pv.SEED * 1000 + 23)
    for name in ["easy", "bars", "hole", "crosses", "crosses_explicit", "crosses_latent", "xs", "easy_explicit", "simple"]:
        for i in range(scale(40 if name == "bars" else 24, 300)):
            painting(g, name, i)
    for name in ["blocks", "checker", "big_checker", "blocks_multinomial", "checker_multinomial", "big_checker_extended"]:
        for i in range(scale(10, 60)):
            pattern(g, name, i)
    loaders(g)
    from pystruct import datasets
    rec().trace("lists")
    with call("lists"):
        for f in datasets.binary:
            X, Y = f()
            rec().ev("fact", name="binary-task", ok=sorted(np.unique(Y)) == [0, 1] and np.asarray(X).shape == np.asarray(Y).shape + (2,))
        for f in datasets.multinomial:
            X, Y = f()
            rec().ev("fact", name="multinomial-task", ok=sorted(np.unique(Y)) == [0, 1, 2] and X.shape == Y.shape + (3,))
