----------------------------- MODULE TraceLatent -----------------------------
(* Runs of LatentSSVM: completion of the hidden states with the weights of the *)
(* last refit, refit on exactly those completions, stop at a fixpoint.  One    *)
(* event per outer iteration: the completions the base learner was given, the  *)
(* weights and constraints it ended with.                                      *)
EXTENDS Learn, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Tol == 500
P(tt) == Traces[tt].prob
N(p) == Len(p.xs)
Sc(p, i, w, h) == Dot(w, JF(p.m, p.xs[i], h)) \div JFScale(p.m)
\* completions of sample i: labelings whose visible part is the truth
Compl(p, i) == Labelings(ConsistentDom(p.m, p.xs[i], p.ys[i]))
Best(p, i, w) == Max({Sc(p, i, w, h) : h \in Compl(p, i)})
Consistent(p, i, h) == Legal(p.m, p.xs[i], h) /\ Visible(p.m, p.xs[i], h) = p.ys[i]
AllConsistent(p, hs) == Len(hs) = N(p) /\ \A i \in 1..N(p) : Consistent(p, i, hs[i])
With(p, e) == [m |-> p.m, xs |-> p.xs, ys |-> e.hs, CN |-> p.CN, CD |-> p.CD, al |-> e.al, w |-> e.cw]

\* the risk after the hidden variables are completed optimally: what the alternation descends
AugTop(p, i, w) == Max({(VLoss(p.m, p.ys[i], Visible(p.m, p.xs[i], h)) * FX) \div p.m.D + Sc(p, i, w, h) :
                           h \in Labelings(Dom(p.m, p.xs[i]))})
LatentRisk(p, w) == CMul(p, Sum([i \in 1..N(p) |-> Max2(0, AugTop(p, i, w) - Best(p, i, w))])) + Half(FNorm2(w))

\* the constraint [y, d, l] of sample i is what labeling y yields against completion h
Truthful(p, hs, i, c) ==
    /\ Legal(p.m, p.xs[i], c.y)
    /\ VNear(c.d, VScale(FX, Delta(p.m, p.xs[i], hs[i], c.y)), 2)
    /\ Near(c.l, FX * VLoss(p.m, p.ys[i], Visible(p.m, p.xs[i], c.y)), 2 * p.m.D)

\* the n-slack learner keeps constraints of positive loss only: it is done when the most
\* violated labeling of every sample has no loss or violates no more than the stored ones
NoNewConstraint(p, e, tab, i) ==
    LET own == Max({0} \cup {e.cons[i][j].l \div p.m.D - FDot(e.w, e.cons[i][j].d) \div JFScale(p.m) : j \in DOMAIN e.cons[i]})
    IN VMax(p.m, tab, i, e.w) <= own + 200 \/ \E r \in tab[i] : r.l = 0 /\ Viol(p.m, e.w, r.d, r.l) >= VMax(p.m, tab, i, e.w) - 40

Start(p) == [k |-> 0, w |-> VZero(SizeJF(p.m)), hs |-> <<>>, cons |-> <<>>, risk |-> -1]
RefitClauses(p, s, e) ==
    LET ok == AllConsistent(p, e.hs)
    IN Need("iteration-limit", s.k < p.latiter)
       \cup Need("completion-keeps-labels", ok)
       \cup Need("one-completion-per-refit", e.same)
       \cup (IF ~ok THEN {} ELSE
             Need("completion-is-best", s.k = 0 \/ \A i \in 1..N(p) : Sc(p, i, s.w, e.hs[i]) >= Best(p, i, s.w) - 40)
             \cup Need("first-completion-is-initial", s.k > 0 \/ e.hs = p.hinit)
             \cup Need("refit-only-after-a-change", s.k = 0 \/ e.hs # s.hs)
             \cup (IF p.base = "sub" THEN {} ELSE
                   LET q == With(p, e)
                       z == Solve(q)
                       r == Risk(q, z.tab, e.w)
                   IN Need("certificate", z.cert /\ z.hi - z.lo <= 200)
                      \cup Need("objective-is-risk", Near(e.obj, r, Tol))
                      \cup (IF p.base = "1"
                            THEN Need("refit-optimal", r <= z.hi + CMul(p, N(p) * p.tol) + Tol)
                                 \cup Need("alternation-descends",
                                      s.k = 0 \/ LatentRisk(p, e.w) <= s.risk + CMul(p, N(p) * p.tol) + Tol)
                            ELSE Need("refit-converged", \A i \in 1..N(p) : NoNewConstraint(p, e, z.tab, i))))
             \cup (IF p.base # "n" THEN {} ELSE
                   Need("constraints-truthful", \A i \in 1..N(p) : \A j \in DOMAIN e.cons[i] :
                            Truthful(p, e.hs, i, e.cons[i][j]))
                   \cup Need("constraints-carried-over", s.k = 0 \/ \A i \in 1..N(p) : \A j \in DOMAIN s.cons[i] :
                            \E q \in DOMAIN e.cons[i] : e.cons[i][q].y = s.cons[i][j].y)))
EndClauses(p, s, e) ==
    LET ok == Len(e.hs) = N(p) /\ Len(e.preds) = N(p) /\ \A i \in 1..N(p) : Legal(p.m, p.xs[i], e.hs[i])
        mx == Sum([i \in 1..N(p) |-> MaxLossV(p.m, p.ys[i])])
        ls == Sum([i \in 1..N(p) |-> VLoss(p.m, p.ys[i], e.preds[i])])
        top(i) == Max({Sc(p, i, e.w, h) : h \in Labelings(Dom(p.m, p.xs[i]))})
    IN Need("final-weights", VNear(e.w, s.w, 1))
       \cup Need("initial-assignment-recorded", e.hinit = p.hinit)
       \* stops before the limit only at a fixpoint: the completions are still best
       \cup Need("stops-at-fixpoint", \/ s.k = p.latiter
                    \/ (s.k > 0 /\ AllConsistent(p, s.hs) /\ \A i \in 1..N(p) : Sc(p, i, s.w, s.hs[i]) >= Best(p, i, s.w) - 40))
       \cup Need("legal-prediction", ok)
       \cup (IF ~ok THEN {} ELSE
             Need("visible-part", \A i \in 1..N(p) : e.preds[i] = Visible(p.m, p.xs[i], e.hs[i]))
             \cup Need("maximal-prediction", \A i \in 1..N(p) : Sc(p, i, e.w, e.hs[i]) >= top(i) - 40)
             \cup Need("score-counts-visible-labels", Near((FX - e.val) * mx, ls * FX, 2 * mx)))

VARIABLES t, l, st
Clauses(p, s, e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "init"  -> Need("initial-assignment-consistent", ~p.auto \/ AllConsistent(p, p.hinit))
      [] e.ev = "refit" -> RefitClauses(p, s, e)
      [] e.ev = "end"   -> EndClauses(p, s, e)
      [] e.ev = "restart" -> {}
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
Post(p, s, e) ==
    CASE e.ev = "refit" -> [k |-> s.k + 1, w |-> e.w, hs |-> e.hs, cons |-> e.cons,
                            risk |-> IF AllConsistent(p, e.hs) THEN LatentRisk(p, e.w) ELSE -1]
      [] e.ev = "restart" -> Start(p)
      [] OTHER -> s
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = Start(P(t))
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(P(t), st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(P(t), st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
