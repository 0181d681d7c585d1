----------------------------- MODULE TraceValid -----------------------------
(* What the real code did with the cases of MCValid: refused (an exception)   *)
(* or went through all operations asked for.                                  *)
EXTENDS Valid, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
VARIABLES t, l
Clauses(e) ==
    CASE e.ev = "case" -> Need("accepted-malformed", MustRefuse(e.c) => e.out = "refused")
                          \cup Need("refused-well-formed", WellFormed(e.c) => e.out = "result")
      [] e.ev = "fact" -> Need(e.name, e.ok)
      [] e.ev = "exception" -> {"raised"}
      [] OTHER -> {"unknown-event"}
Init == t \in DOMAIN Traces /\ l = 0
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(e)
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l>>
=============================================================================
