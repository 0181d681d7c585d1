-------------------------------- MODULE Curves --------------------------------
(* What a learner reports about its training: curves of the training loss, of *)
(* objectives and times. Weights have versions: version 0 before the first    *)
(* pass of a fit, version k after pass k.                                     *)
(*   "n"    n-slack: the loss of a pass is that of the weights after it       *)
(*   "1"    one-slack: that of the weights the new constraint was found with  *)
(*   "sub"  subgradient, latent subgradient                                   *)
(*   "fwb"  Frank-Wolfe in batches, "fwc" block coordinate (objectives only   *)
(*          when the gap is computed)                                         *)
(*   "perc" perceptron: the loss of every epoch, nothing else                 *)
EXTENDS Integers, Sequences

\* the passes (numbered from 0) of p whose loss is recorded
RECURSIVE Every(_, _)
Every(e, p) == IF e = 0 \/ p = 0 THEN <<>>
               ELSE IF (p - 1) % e = 0 THEN Append(Every(e, p - 1), p - 1) ELSE Every(e, p - 1)
Version(fam, k) == IF fam \in {"1", "perc"} THEN k ELSE k + 1
\* entries a fit of p passes adds; chk: how often Frank-Wolfe computes the gap
Objectives(fam, p, chk) ==
    CASE fam = "perc" -> 0
      [] fam = "fwc"  -> Len(Every(chk, p)) + 1
      [] OTHER -> p + 1
Primals(fam, p, chk) == IF fam \in {"sub", "perc"} THEN 0 ELSE Objectives(fam, p, chk)
Cached(fam, p) == IF fam = "1" THEN p + 1 ELSE 0
\* times of the passes and the final one; a fresh fit also stores when it began
Times(fam, p, chk, warm) ==
    IF fam = "perc" THEN 0 ELSE Objectives(fam, p, chk) + (IF warm THEN 0 ELSE 1)
==============================================================================
