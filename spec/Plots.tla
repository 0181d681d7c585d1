-------------------------------- MODULE Plots ---------------------------------
(* The learning plot as a function of what a learner recorded: a sequence of   *)
(* lines, each with its panel, abscissae and values. A state s of a learner:   *)
(*   fam, every     as in Curves; each: the objective is recorded in every pass *)
(*   obj, prim, loss the curves; hit the cached constraints (one-slack only)    *)
(*   times          when the passes began and training ended                    *)
(* An objective is shown at the time it was known, when the next pass began.    *)
EXTENDS Integers, Sequences

Least(a, b) == IF a < b THEN a ELSE b
Shown(s, time) == [k \in 1..Len(s.obj) |-> IF time THEN s.times[Least(k + 1, Len(s.obj))] ELSE k - 1]
Runs(s) == SelectSeq([k \in 1..Len(s.hit) |-> k], LAMBDA k : ~ s.hit[k])
Line(panel, xs, ys, fixed) == [panel |-> panel, xs |-> xs, ys |-> ys, fixed |-> fixed]

ObjLine(s, time)  == <<Line(1, Shown(s, time), s.obj, TRUE)>>
PrimLine(s, time) == IF s.prim = <<>> THEN <<>> ELSE <<Line(1, Shown(s, time), s.prim, TRUE)>>
\* the primal objectives that took inference, marked
RunLine(s, time)  == IF s.fam # "1" THEN <<>>
                     ELSE LET r == Runs(s)
                          IN <<Line(1, [j \in DOMAIN r |-> Shown(s, time)[r[j]]], [j \in DOMAIN r |-> s.prim[r[j]]], TRUE)>>
\* where the losses are is only promised if every pass has an objective
LossLine(s, time) == IF s.loss = <<>> THEN <<>>
                     ELSE IF s.each THEN <<Line(2, [j \in DOMAIN s.loss |-> Shown(s, time)[1 + (j - 1) * s.every]], s.loss, TRUE)>>
                     ELSE <<Line(2, s.loss, s.loss, FALSE)>>
Lines(s, time) ==
    IF s.fam = "perc" THEN <<Line(1, [j \in DOMAIN s.loss |-> j - 1], s.loss, TRUE)>>
    ELSE ObjLine(s, time) \o PrimLine(s, time) \o RunLine(s, time) \o LossLine(s, time)
Panels(s) == IF s.fam # "perc" /\ s.loss # <<>> THEN 2 ELSE 1
===============================================================================
