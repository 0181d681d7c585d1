------------------------------- MODULE MCCurves -------------------------------
(* The training loops, as far as they report: fits of up to MaxP passes that  *)
(* may stop after (n, sub, fw, perceptron) or before (one-slack) any of them, *)
(* with a warm fit after the first. What is recorded is what Curves says.     *)
EXTENDS Curves, TLC

CONSTANTS MaxP, MaxE
VARIABLES fam, e, chk, fit, k, ver, pc, loss, obj, prim, times, cached, base
vars == <<fam, e, chk, fit, k, ver, pc, loss, obj, prim, times, cached, base>>

Init == /\ fam \in {"n", "1", "sub", "fwb", "fwc", "perc"}
        /\ e \in IF fam = "perc" THEN {1} ELSE 0..MaxE
        /\ chk \in IF fam = "fwc" THEN 0..2 ELSE {1}
        /\ fit = 1 /\ k = 0 /\ ver = 0 /\ pc = "pass"
        /\ loss = <<>> /\ obj = 0 /\ prim = 0 /\ cached = 0
        /\ times = IF fam = "perc" THEN 0 ELSE 1
        /\ base = [loss |-> 0, obj |-> 0, prim |-> 0, cached |-> 0, times |-> 0]
Rec(v) == IF e # 0 /\ k % e = 0 THEN Append(loss, <<fit, v>>) ELSE loss
Due == fam # "fwc" \/ (chk # 0 /\ k % chk = 0)
B(x) == IF x THEN 1 ELSE 0
\* one pass: the order in which loss, weights and objectives are brought up to date
Pass == /\ pc = "pass" /\ k < MaxP
        /\ IF fam \in {"1", "perc"} THEN loss' = Rec(ver) /\ ver' = ver + 1
           ELSE ver' = ver + 1 /\ loss' = Rec(ver + 1)
        /\ obj' = obj + B(fam # "perc" /\ Due)
        /\ prim' = prim + B(fam \notin {"perc", "sub"} /\ Due)
        /\ cached' = cached + B(fam = "1")
        /\ times' = times + B(fam # "perc" /\ Due)
        /\ k' = k + 1
        /\ UNCHANGED <<fam, e, chk, fit, pc, base>>
\* the loop ends: converged, nothing found, out of passes
Final == /\ pc = "pass" /\ (k > 0 \/ fam = "1")
         /\ pc' = "done"
         /\ obj' = obj + B(fam # "perc") /\ prim' = prim + B(fam \notin {"perc", "sub"})
         /\ cached' = cached + B(fam = "1") /\ times' = times + B(fam # "perc")
         /\ UNCHANGED <<fam, e, chk, fit, k, ver, loss, base>>
Warm == /\ pc = "done" /\ fit = 1 /\ fam \in {"n", "1", "sub"}
        /\ fit' = 2 /\ k' = 0 /\ ver' = 0 /\ pc' = "pass"
        /\ base' = [loss |-> Len(loss), obj |-> obj, prim |-> prim, cached |-> cached, times |-> times]
        /\ UNCHANGED <<fam, e, chk, loss, obj, prim, times, cached>>
Next == Pass \/ Final \/ Warm
Spec == Init /\ [][Next]_vars
warm == fit = 2
Told == pc = "done" =>
    /\ SubSeq(loss, base.loss + 1, Len(loss)) = [j \in DOMAIN Every(e, k) |-> <<fit, Version(fam, Every(e, k)[j])>>]
    /\ obj = base.obj + Objectives(fam, k, chk)
    /\ prim = base.prim + Primals(fam, k, chk)
    /\ cached = base.cached + Cached(fam, k)
    /\ times = base.times + Times(fam, k, chk, warm)
==============================================================================
