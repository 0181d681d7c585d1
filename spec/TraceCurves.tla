----------------------------- MODULE TraceCurves -----------------------------
(* Recorded fits of real learners: what the curves say, and the predictions   *)
(* (visible labels) of every version of the weights.                          *)
EXTENDS Models, Curves, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
K == 65536
Losses(m, ys, ps) == Sum([i \in DOMAIN ys |-> VLoss(m, ys[i], ps[i])])
Maxima(m, ys) == Sum([i \in DOMAIN ys |-> MaxLossV(m, ys[i])])
\* val (scaled by K) is the share of the loss
Share(m, ys, ps, val) == Abs(val * Maxima(m, ys) - K * Losses(m, ys, ps)) <= Maxima(m, ys)
ScoreClauses(e) == Need("score", Share(e.m, e.ys, e.ps, K - e.val))
LossClauses(e) ==
    LET its == Every(e.every, e.p)
        new == SubSeq(e.loss, e.lossbefore + 1, Len(e.loss))
    IN Need("recorded-at", Len(e.loss) = e.lossbefore + Len(its))
       \cup IF Len(new) # Len(its) THEN {}
            ELSE Need("training-loss", \A j \in DOMAIN its :
                        LET v == Version(e.fam, its[j])
                        IN v + 1 \in DOMAIN e.preds => Share(e.m, e.ys, e.preds[v + 1], new[j]))
FitClauses(e) ==
    LossClauses(e)
    \cup Need("objectives", e.nobj = e.before.obj + Objectives(e.fam, e.p, e.chk))
    \cup Need("primal-objectives", e.nprim = e.before.prim + Primals(e.fam, e.p, e.chk))
    \cup Need("cached-constraints", e.ncached = e.before.cached + Cached(e.fam, e.p))
    \cup Need("times", e.ntimes = e.before.times + Times(e.fam, e.p, e.chk, e.warm))
    \cup Need("times-decrease", \A i \in DOMAIN e.times : e.times[i] >= 0 /\ (i > 1 => e.times[i] >= e.times[i - 1]))
    \cup Need("times-too-long", Len(e.times) = 0 \/ e.times[Len(e.times)] <= e.wall)
EpochClauses(e) ==
    Need("recorded-at", Len(e.loss) = e.p)
    \cup Need("training-loss", ~e.batch \/ Len(e.loss) # e.p \/
              \A k \in 1..e.p : k \in DOMAIN e.preds => Share(e.m, e.ys, e.preds[k], e.loss[k]))
VARIABLES t, l
Clauses(e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "score" -> ScoreClauses(e)
      [] e.ev = "fit"   -> FitClauses(e)
      [] e.ev = "epochs" -> EpochClauses(e)
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
Init == t \in DOMAIN Traces /\ l = 0
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET bad == Clauses(Traces[t].evs[l + 1])
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l>>
==============================================================================
