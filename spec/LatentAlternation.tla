-------------------------- MODULE LatentAlternation --------------------------
(* The alternation of LatentSSVM on every small problem: two samples with a    *)
(* one-dimensional joint feature, weights on a grid, completions chosen by a    *)
(* deterministic inference.  The risk after optimal completion never increases, *)
(* the loop ends at a fixpoint or at the limit, and a run that stopped early    *)
(* would reproduce itself.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS NS, J, L, Grid, Limit
JDef == {-1, 0, 1}
GDef == {-2, -1, 0, 1, 2}
\* for each sample: feature value of either completion (1, 2) and of one wrong labeling,
\* and the loss of the wrong labeling
Samples == [c : {<<a, b>> : a \in J, b \in J}, y : J, l : L]
VARIABLES prob, h, w, k, stage, old
vars == <<prob, h, w, k, stage, old>>
S == 1..NS
Sum2(f) == LET RECURSIVE go(_)
               go(n) == IF n = 0 THEN 0 ELSE f[n] + go(n - 1)
           IN go(NS)
\* twice the objective
Slack(i, v, c) == Max({0, prob[i].l + v * prob[i].y - v * prob[i].c[c], v * prob[i].c[3 - c] - v * prob[i].c[c]})
Obj(v, hh) == 2 * Sum2([i \in S |-> Slack(i, v, hh[i])]) + v * v
BestC(i, v) == IF v * prob[i].c[1] >= v * prob[i].c[2] THEN 1 ELSE 2
Completed(v) == [i \in S |-> BestC(i, v)]
Refits(hh) == {v \in Grid : \A u \in Grid : Obj(v, hh) <= Obj(u, hh)}
Init == /\ prob \in [S -> Samples] /\ h \in [S -> {1, 2}] /\ w = 0 /\ k = 0 /\ stage = "refit" /\ old = 1000000
Refit == /\ stage = "refit" /\ k < Limit
         /\ w' \in Refits(h)
         /\ k' = k + 1 /\ old' = (IF k = 0 THEN 1000000 ELSE Obj(w, h))
         /\ stage' = (IF k + 1 = Limit THEN "limit" ELSE "complete")
         /\ UNCHANGED <<prob, h>>
Complete == /\ stage = "complete"
            /\ LET n == Completed(w)
               IN IF n = h THEN stage' = "stopped" /\ UNCHANGED h
                  ELSE h' = n /\ stage' = "refit"
            /\ UNCHANGED <<prob, w, k, old>>
Next == Refit \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the refit does not undo what the completion gained, nor the completion what the refit gained
Descends == stage \in {"complete", "limit"} => Obj(w, h) <= old
CompletionHelps == stage = "complete" => Obj(w, Completed(w)) <= Obj(w, h)
Fixpoint == stage = "stopped" => /\ Completed(w) = h
                                 /\ w \in Refits(h)
Bounded == k <= Limit
Ends == <>(stage \in {"stopped", "limit"})
==============================================================================
