"""Stand-ins for the optional solver libraries (pyqpbo, opengm), which are not installed: they
minimise exactly what they are given, by enumeration, and insist on the types the libraries
take.  What is tested is what pystruct hands to them and makes of their answers."""
import itertools
import sys
import types

import numpy as np


def best(terms, sizes, last):
    """the first or last of the labelings of least energy; terms: (variables, table)"""
    top, arg = None, None
    for y in itertools.product(*[range(s) for s in sizes]):
        e = sum(tab[tuple(y[v] for v in vs)] for vs, tab in terms)
        if top is None or e < top or (last and e == top):
            top, arg = e, y
    return np.array(arg, dtype=np.uint64).reshape(-1)


class Solver(object):
    def __init__(self, gm):
        self.gm, self.done = gm, False

    def setStartingPoint(self, y):
        pass

    def infer(self):
        self.done = True

    def arg(self):
        assert self.done
        return best(self.gm.terms, self.gm.sizes, self.gm.last)


ALGS = dict(bp="BeliefPropagation", dd="DualDecompositionSubgradient", trws="TrwsExternal", trw="TreeReweightedBp", gibbs="Gibbs",
            lf="LazyFlipper", dyn="DynamicProgramming", fm="AlphaExpansionFusion", gc="GraphCut", mqpbo="Mqpbo",
            alphaexp="AlphaExpansion")


class Libraries(object):
    """with Libraries(last) as l: both are there; l.algs: the solvers that were made"""
    def __init__(self, last=False):
        self.last, self.algs = last, []

    def __enter__(self):
        lib = self

        class GM(object):
            def __init__(self, sizes):
                self.sizes, self.terms, self.last = [int(s) for s in sizes], [], lib.last

            def reserveFactors(self, n):
                pass

            def reserveFunctions(self, n, kind):
                pass

            def addFunctions(self, tables):
                assert tables.dtype == np.float64
                return [np.array(t) for t in tables]

            def addFactors(self, funs, variables):
                variables = np.asarray(variables)
                assert variables.dtype == np.uint64 and len(funs) == len(variables)
                for f, vs in zip(funs, variables):
                    vs = [int(v) for v in np.ravel(vs)]
                    assert f.shape == tuple(self.sizes[v] for v in vs)
                    self.terms.append((vs, f))

            def evaluate(self, y):
                return float(sum(tab[tuple(int(y[v]) for v in vs)] for vs, tab in self.terms))

        def expand(edges, unary, pairwise, n_iter=5, verbose=False, random_seed=None):
            for a, d in ((edges, 2), (unary, 2), (pairwise, 3)):
                assert a.dtype == np.int32 and a.ndim == d and a.flags.c_contiguous
            n, S = unary.shape
            assert pairwise.shape == (len(edges), S, S) and edges.shape == (len(edges), 2)
            terms = [([v], unary[v].astype(int)) for v in range(n)] + \
                [([int(a), int(b)], t.astype(int)) for (a, b), t in zip(edges, pairwise)]
            return best(terms, [S] * n, lib.last).astype(np.int64)
        q, o = types.ModuleType("pyqpbo"), types.ModuleType("opengm")
        q.alpha_expansion_general_graph = expand
        o.gm, o.label_type, o.value_type, o.inference = GM, np.uint64, np.float64, types.SimpleNamespace()
        for a, name in ALGS.items():
            def make(gm, a=a):
                lib.algs.append(a)
                return Solver(gm)
            setattr(o.inference, name, make)
        self.old = {k: sys.modules.get(k) for k in ("pyqpbo", "opengm")}
        sys.modules.update(pyqpbo=q, opengm=o)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
        return False
