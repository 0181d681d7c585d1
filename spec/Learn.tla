-------------------------------- MODULE Learn --------------------------------
(* Structured risk minimization over a finite problem: what learners minimize *)
(* and what bounds it.  A problem is a record                                 *)
(*   p.m model, p.xs instances, p.ys true labelings, p.CN / p.CD the constant  *)
(*   C, p.al a dual certificate: per sample a sequence of [y, a] (labeling and *)
(*   multiplier, scale 2^16), p.w weights (scale 2^16) that attain the optimum.*)
(* The certificate is supplied from outside and not trusted: LowerBound holds  *)
(* for every feasible one, UpperBound for every w.                            *)
EXTENDS Models

JFScale(m)          == m.ps * (IF m.rescale THEN m.D ELSE 1)
JFL(m, x, y, yt)    == IF m.rescale THEN JFRescaled(m, x, y, yt) ELSE JF(m, x, y)
Delta(m, x, yt, y)  == VSub(JFL(m, x, yt, yt), JFL(m, x, y, yt))
\* everything a sample can contribute: difference vectors and losses
Table(p) == [i \in DOMAIN p.xs |->
               {[d |-> Delta(p.m, p.xs[i], p.ys[i], y), l |-> Loss(p.m, p.xs[i], p.ys[i], y)] :
                   y \in Labelings(Dom(p.m, p.xs[i]))}]
CMul(p, v) == (p.CN * v) \div p.CD
\* margin violation of (d, l) at weights w, scale FX
Viol(m, w, d, l)   == (l * FX) \div m.D - Dot(w, d) \div JFScale(m)
VMax(m, tab, i, w) == Max({Viol(m, w, r.d, r.l) : r \in tab[i]})
Half(v) == v \div 2
\* regularized risk: C * sum of slacks + |w|^2 / 2
SlackSum(m, tab, w) == Sum([i \in DOMAIN tab |-> Max2(0, VMax(m, tab, i, w))])
Risk(p, tab, w)     == CMul(p, SlackSum(p.m, tab, w)) + Half(FNorm2(w))
UpperBound(p, tab)  == Risk(p, tab, p.w)
Feasible(p) == \A i \in DOMAIN p.al :
                  /\ \A k \in DOMAIN p.al[i] : p.al[i][k].a >= 0 /\ Legal(p.m, p.xs[i], p.al[i][k].y)
                  /\ Sum([k \in DOMAIN p.al[i] |-> p.al[i][k].a]) <= CMul(p, FX)
LowerBound(p) ==
    LET items == FlattenSeq([i \in DOMAIN p.al |-> [k \in DOMAIN p.al[i] |->
                   [a |-> p.al[i][k].a,
                    d |-> Delta(p.m, p.xs[i], p.ys[i], p.al[i][k].y),
                    l |-> Loss(p.m, p.xs[i], p.ys[i], p.al[i][k].y)]]])
        v == VSum([j \in DOMAIN items |-> VScale(items[j].a, items[j].d)], VZero(SizeJF(p.m)))
        s == JFScale(p.m)
    IN Sum([j \in DOMAIN items |-> (items[j].a * items[j].l) \div p.m.D])
       - Half(FNorm2([q \in DOMAIN v |-> v[q] \div s]))

\* a problem with its table and the interval the optimum lies in
Solve(p) == LET tab == TLCEval(Table(p))
            IN TLCEval([tab |-> tab, lo |-> LowerBound(p), hi |-> UpperBound(p, tab),
                        cert |-> Feasible(p)])
Need(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
