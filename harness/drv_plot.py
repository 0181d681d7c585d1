"""C27: the learning plot and the grid plot"""
import contextlib
import io
import os
import re
import sys

import numpy as np

import pv
from drv_curve import FAMS, KINDS, make
from drv_step import latent_problem
from learn import problem
from pv import Gen, call, fx, py, rec, scale

MIN = 60e6                       # a minute in microseconds
UNIT = 1000


def drawn(plt, said, shown, time, perc):
    """the figure and what was printed"""
    fig = plt.gcf()
    lines = []
    for p, ax in enumerate(fig.axes):
        for q in ax.lines:
            xs = np.asarray(q.get_xdata(), float)
            lines.append(dict(panel=p + 1, xs=fx(xs, MIN if time and not perc else UNIT),
                              ys=fx(np.asarray(q.get_ydata(), float))))

    def said_(what):
        a = re.findall(r"%s: (\S+)" % what, said)
        return float(a[-1]) if a else float("nan")
    it = said_("Iterations")
    return dict(panels=len(fig.axes), lines=lines, shown=shown, iterations=int(it) if it == it else -1,
                objective=fx(said_("Objective")), gap=fx(said_("Gap")))


def learners(i, g, plt):
    from pystruct import learners as L
    from pystruct import plot_learning as PL
    from pystruct.utils import SaveLogger
    r = g.r
    name = (FAMS + ["lat-1", "lat-n", "lat-sub"])[i % (len(FAMS) + 3)]
    lat = name.startswith("lat")
    P = latent_problem(g, 3) if lat else problem(g, kind=r.choice([k for k in KINDS if k != "rescale" or "perc" not in name]), n=3)
    every = r.choice([0, 1, 1, 2, 3])
    rec().trace("plot-%s-%s-%d" % (name, P.kind, i))
    with call("train and plot", 60):
        X, Y = P.data()
        m = P.model(record=False)
        chk = 1
        if name.startswith("lat-"):
            fam = name[4:]
            base = {"1": L.OneSlackSSVM, "n": L.NSlackSSVM, "sub": L.SubgradientSSVM}[fam](m, C=P.C, max_iter=4, show_loss_every=every)
            lrn = L.LatentSSVM(base, latent_iter=1)
            H = []
            for x, y in zip(P.xs, P.ys):
                while True:
                    h = g.labeling(P.m, x)
                    if g.visible(P.m, x, h) == y:
                        break
                H.append(py(P.m, x, h))
            lrn.fit(X, Y, H_init=H)
        else:
            lrn, fam, chk = make(name, m, P, g, None, every, 1)
            if name == "latsub":
                lrn.w = np.random.RandomState(i).normal(size=pv.size_jf(P.m))
            lrn.fit(X, Y)
            base = lrn
        s = dict(fam=fam, every=every, each=fam != "fwc" or chk == 1, obj=fx(getattr(base, "objective_curve_", [])),
                 prim=fx(getattr(base, "primal_objective_curve_", [])), loss=fx(getattr(base, "loss_curve_", [])),
                 hit=[bool(b) for b in getattr(base, "cached_constraint_", [])],
                 times=fx(np.asarray(getattr(base, "timestamps_", [0])[1:], float), 1e6))
        path = None
        if i % 3 == 0:
            path = os.path.join(pv.WORK, "plot-%d.pickle" % os.getpid())
            SaveLogger(path)(lrn, "final")
        for time in (True, False):
            if path and not time:
                break
            plt.close("all")
            shown = []
            out = io.StringIO()
            show, argv = plt.show, sys.argv
            plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))
            try:
                with contextlib.redirect_stdout(out):
                    if path:
                        # the command: the stored learner, over time
                        sys.argv = ["plot_learning", path]
                        PL.main()
                    else:
                        PL.plot_learning(lrn, time=time)
            finally:
                plt.show, sys.argv = show, argv
                if path:
                    os.remove(path)
            rec().ev("plot", s=s, time=time, unit=UNIT, **drawn(plt, out.getvalue(), shown == [1], time, fam == "perc"))
    plt.close("all")


def grids(i, g, plt):
    from pystruct.utils import plot_grid
    r = g.r
    h, w = r.randint(1, 5), r.randint(1, 5)
    x = g.mat(h, w, 0, 9)
    rec().trace("plotgrid-%d" % i)
    with call("plot_grid"):
        plt.close("all")
        own = None
        if r.random() < .6:
            fig, axs = plt.subplots(1, 2)
            own = axs[r.randrange(2)]
        kw = dict(cmap=r.choice([None, "gray"]), linewidth=r.choice([1, 3]), border_color=r.choice([None, "red"]))
        ax = plot_grid(np.array(x), axes=own, **kw) if own is not None else plot_grid(np.array(x), **kw)
        fig = ax.figure
        fig.canvas.draw()
        im = ax.images[0]
        rec().ev("grid", x=x, image=np.asarray(im.get_array()).astype(int).tolist(), same=own is None or ax is own,
                 xticks=fx(ax.get_xticks(), 2), yticks=fx(ax.get_yticks(), 2),
                 on=all(q.get_visible() and q.get_linewidth() == kw["linewidth"] and q.get_color() == (kw["border_color"] or "black")
                        for q in ax.get_xgridlines() + ax.get_ygridlines()))
    plt.close("all")


def c27():
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(pv.WORK, "mpl"))
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    g = Gen(pv.SEED * 1000 + 27)
    for i in range(scale(190, 1500)):
        learners(i, g, plt)
    for i in range(scale(40, 300)):
        grids(i, g, plt)
    rec().end()
