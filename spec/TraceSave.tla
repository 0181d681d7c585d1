------------------------------ MODULE TraceSave ------------------------------
(* Recorded calls of the real SaveLogger: after every call the live learner   *)
(* and what loading each file of the directory gives.                         *)
(*   header: each (one file per iteration), period, pre/post around the       *)
(*   iteration in the names                                                   *)
(* A learner is recorded as [w, par, pred, cur, cache]: weights, constructor  *)
(* parameters, predictions, the curves and the sizes of the other lists       *)
(* training recorded, size of the cache (-1: none).                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
P(tt) == Traces[tt].prob
ItStr(e) == IF e.final THEN "final" ELSE ToString(e.it)
Due(p, e) == e.final \/ e.it % p.period = 0
Name(p, e) == IF p.each THEN p.pre \o ItStr(e) \o p.post ELSE p.pre \o p.post
Bad == [st |-> "bad"]
Absent == [st |-> "absent"]
Full(v) == [st |-> "ok", w |-> v.w, par |-> v.par, pred |-> v.pred, cur |-> v.cur]
Seen(f) == IF f.st = "ok" THEN Full(f) ELSE IF f.st = "bad" THEN Bad ELSE Absent
\* what a name may hold: a set; names never written hold nothing
May(s, n) == IF n \in DOMAIN s THEN s[n] ELSE {Absent}
Names(e) == {e.files[k].name : k \in DOMAIN e.files}
FileAt(e, n) == IF n \in Names(e) THEN e.files[CHOOSE k \in DOMAIN e.files : e.files[k].name = n] ELSE [st |-> "absent"]
\* the directory after the call
After(p, s, e) ==
    IF ~Due(p, e) THEN s
    ELSE LET n == Name(p, e)
             v == IF e.fault = "none" THEN {Full(e.live)}
                  ELSE IF e.fault = "open" THEN May(s, n)
                  ELSE May(s, n) \cup {Bad, Absent}
         IN [q \in DOMAIN s \cup {n} |-> IF q = n THEN v ELSE s[q]]
SaveClauses(p, s, e) ==
    LET a == After(p, s.files, e)
    IN Need("save-failed", e.fault # "none" \/ ~e.raised)
       \cup Need("saved-while-not-due", Due(p, e) \/ ~e.raised)
       \cup Need("cache-lost", e.live.cache = e.before.cache /\ e.same)
       \cup Need("live-changed", Full(e.live) = Full(e.before))
       \cup Need("unexpected-file", \A n \in Names(e) : n \in DOMAIN a)
       \cup UNION {Need("file-content", Seen(FileAt(e, n)) \in a[n]) : n \in DOMAIN a}
       \cup Need("cache-stored", \A k \in DOMAIN e.files : e.files[k].st = "ok" => e.files[k].cache <= 0)
EndClauses(p, s, e) ==
    Need("final-state-stored", Seen(FileAt(e, e.lname)) = Full(e.live))
    \cup Need("final-call", e.finals = 1 \/ ~e.trained)

VARIABLES t, l, st
Clauses(p, s, e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "save" -> SaveClauses(p, s, e)
      [] e.ev = "end"  -> EndClauses(p, s, e)
      [] e.ev = "fact" -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
\* what is known afterwards is what was seen (if it is one of the possibilities)
Post(p, s, e) ==
    CASE e.ev = "save" ->
            LET a == After(p, s.files, e)
            IN [files |-> [n \in DOMAIN a |-> IF Seen(FileAt(e, n)) \in a[n] THEN {Seen(FileAt(e, n))} ELSE a[n]]]
      [] OTHER -> s
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = [files |-> [n \in {} |-> {}]]
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(P(t), st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(P(t), st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
