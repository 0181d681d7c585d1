------------------------------ MODULE Lifecycle ------------------------------
(* The life of a learner: constructed, fitted, fitted again, resumed, copied, *)
(* cloned, interrupted, its parameters changed in between.                    *)
(*                                                                            *)
(* The abstract state of a learner is the parameters it was given and its     *)
(* run: a sequence of segments saying which passes over which data, under     *)
(* which C, produced its weights. Two histories with the same run end in the  *)
(* same weights - that is what the recorded histories are checked against.    *)
(*                                                                            *)
(* Families of learners:                                                      *)
(*   "resume"  subgradient: a warm fit goes on where the last fit stopped     *)
(*   "keep"    latent subgradient: as above, and a fresh fit starts from the  *)
(*             weights there are (the documented exception)                   *)
(*   "opt"     cutting planes: a warm fit goes on with the constraints there  *)
(*             are; both end in the optimum for the data and C                *)
(*   "fresh"   no warm start: Frank-Wolfe, perceptron, latent SVM             *)
EXTENDS Integers, Sequences

Unfit == <<>>
Par(c, i) == [C |-> c, it |-> i]
Blank == [on |-> FALSE, par |-> Par(0, 0), run |-> Unfit]
\* one segment: passes `it` over data d under C; a cut one stopped in its first passes
Seg(k, par, d) == [k |-> k, C |-> par.C, it |-> par.it, d |-> d]
Extend(run, s) ==
    LET n == Len(run) IN
    IF s.k = "warm" /\ n > 0 /\ run[n].k \in {"fresh", "warm"} /\ run[n].C = s.C /\ run[n].d = s.d
    THEN [run EXCEPT ![n].it = @ + s.it]
    ELSE Append(run, s)
\* the optimum for the data and C does not remember how it was found
Opt(par, d) == <<[k |-> "fresh", C |-> par.C, it |-> 0, d |-> d]>>

AfterFit(f, x, d) ==
    IF f = "opt" THEN [x EXCEPT !.run = Opt(x.par, d)]
    ELSE IF f = "keep" /\ x.run # Unfit THEN [x EXCEPT !.run = Append(@, Seg("again", x.par, d))]
    ELSE [x EXCEPT !.run = <<Seg("fresh", x.par, d)>>]
AfterWarm(f, x, d) ==
    IF f = "opt" THEN [x EXCEPT !.run = Opt(x.par, d)]
    ELSE [x EXCEPT !.run = Extend(@, Seg("warm", x.par, d))]
AfterCut(f, x, d) ==
    IF f = "keep" /\ x.run # Unfit THEN [x EXCEPT !.run = Append(@, Seg("cut", x.par, d))]
    ELSE [x EXCEPT !.run = <<Seg("cut", x.par, d)>>]
LastData(x) == x.run[Len(x.run)].d
WarmOk(f, x, d) == /\ x.run # Unfit
                   /\ \/ f \in {"resume", "keep"}
                      \/ f = "opt" /\ d = LastData(x)

\* both learners: a is acted on, b is a copy that must not notice
Apply(f, s, o) ==
    CASE o.op = "fit"     -> [s EXCEPT !.a = AfterFit(f, s.a, o.d)]
      [] o.op = "warm"    -> [s EXCEPT !.a = AfterWarm(f, s.a, o.d)]
      [] o.op = "soft"    -> [s EXCEPT !.a = AfterFit(f, s.a, o.d)]
      [] o.op = "cut"     -> [s EXCEPT !.a = AfterCut(f, s.a, o.d)]
      [] o.op = "setC"    -> [s EXCEPT !.a.par.C = o.v]
      [] o.op = "setit"   -> [s EXCEPT !.a.par.it = o.v]
      [] o.op = "clone"   -> [s EXCEPT !.b = [s.a EXCEPT !.run = Unfit]]
      [] o.op = "copy"    -> [s EXCEPT !.b = s.a]
      \* the copy is fitted with the constraints this one found (n-slack)
      [] o.op = "hand"    -> [s EXCEPT !.b = AfterWarm(f, s.b, LastData(s.a))]
      [] o.op = "swap"    -> [a |-> s.b, b |-> s.a]
      [] o.op = "predict" -> s
      [] OTHER -> s
Enabled(f, s, o) ==
    CASE o.op = "warm" -> WarmOk(f, s.a, o.d)
      [] o.op = "soft" -> f = "opt" /\ s.a.run # Unfit /\ o.d = LastData(s.a)
      [] o.op = "cut"  -> TRUE
      [] o.op = "setC" -> o.v # s.a.par.C
      [] o.op = "setit" -> o.v # s.a.par.it /\ f \in {"resume", "keep"}
      [] o.op = "swap" -> s.b.on
      [] o.op = "hand" -> f = "opt" /\ s.b.on /\ s.a.run # Unfit
      [] o.op = "predict" -> s.a.run # Unfit
      [] OTHER -> TRUE
==============================================================================
