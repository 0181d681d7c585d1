------------------------------ MODULE TraceLife ------------------------------
(* Recorded lives of real learners. After every operation both learners (the  *)
(* one acted on and the copy) are observed: weights, parameters, predictions. *)
(* The abstract run (Lifecycle) decides which observations must agree: `seen` *)
(* maps a run to the weights first seen for it.                               *)
(*   header: family, tol (of the weights; the optimum is only reached nearly) *)
EXTENDS Lifecycle, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
P(tt) == Traces[tt].prob
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol

\* what is remembered of an observation
\* (curves only of a plain fit: those of a resumed one go on)
Mem(e, o) == [w |-> o.w, pred |-> o.pred, plain |-> e.op = "fit",
              curve |-> IF e.op = "fit" THEN o.curve ELSE <<>>, loss |-> IF e.op = "fit" THEN o.loss ELSE <<>>]
ParClauses(p, x, o) ==
    Need("parameter-C", \A k \in DOMAIN o.C : o.C[k] = x.par.C)
    \cup Need("parameter-max_iter", p.family = "opt" \/ o.it = x.par.it)
    \cup Need("parameters-changed", o.other = p.other)
RunClauses(p, x, o, seen) ==
    Need("fitted", o.fitted = (x.run # Unfit))
    \cup IF x.run = Unfit \/ ~o.fitted \/ x.run \notin DOMAIN seen THEN {}
         ELSE LET r == seen[x.run] IN
              Need("weights-differ", Near(o.w, r.w, p.tol))
              \* a refit after whatever happened before is a first fit
              \cup IF p.tol > 2 \/ Len(x.run) > 1 \/ x.run[1].k # "fresh" THEN {}
                   ELSE Need("predictions-differ", o.pred = r.pred)
CurveClauses(e, x, seen) ==
    IF e.op # "fit" \/ x.run \notin DOMAIN seen THEN {}
    ELSE LET r == seen[x.run] IN
         IF ~r.plain THEN {}
         ELSE Need("objective-curve-of-earlier-fit", Near(e.a.curve, r.curve, 64))
              \cup Need("loss-curve-of-earlier-fit", Near(e.a.loss, r.loss, 2))
SideClauses(p, x, o, seen) ==
    IF ~x.on THEN {} ELSE ParClauses(p, x, o) \cup RunClauses(p, x, o, seen)

New == [a |-> [on |-> TRUE, par |-> Par(1, 2), run |-> Unfit], b |-> Blank]
VARIABLES t, l, st
Clauses(p, s, e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "fact" -> Need(e.name, e.ok)
      [] e.ev = "new" -> SideClauses(p, New.a, e.a, s.seen)
      [] e.ev = "op" ->
            LET n == Apply(p.family, s.now, e) IN
            Need("not-enabled", Enabled(p.family, s.now, e))
            \cup SideClauses(p, n.a, e.a, s.seen)
            \cup SideClauses(p, n.b, e.b, s.seen)
            \cup CurveClauses(e, n.a, s.seen)
            \cup Need("fit-returns-learner", e.op \notin {"fit", "warm", "soft", "cut"} \/ e.ret)
            \cup Need("operation-moved-predictions", e.op # "predict" \/ e.same)
            \cup Need("copy-noticed", e.apart)
      [] OTHER -> {"unknown-event"}
Remember(e, seen, x, o) ==
    IF x.on /\ x.run # Unfit /\ o.fitted /\ x.run \notin DOMAIN seen
    THEN [k \in DOMAIN seen \cup {x.run} |-> IF k = x.run THEN Mem(e, o) ELSE seen[k]] ELSE seen
Post(p, s, e) ==
    CASE e.ev = "new" -> [s EXCEPT !.now = New]
      [] e.ev = "op" -> LET n == Apply(p.family, s.now, e)
                        IN [now |-> n, seen |-> Remember(e, s.seen, n.a, e.a)]
      [] OTHER -> s
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = [now |-> New, seen |-> [n \in {} |-> 0]]
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(P(t), st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(P(t), st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
