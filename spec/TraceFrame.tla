------------------------------ MODULE TraceFrame ------------------------------
(* Recorded calls of the real code: digests of every object of the caller     *)
(* after the call, and of the result. `heap` holds the digests of the objects *)
(* when they were made, `seen` the result of every call (operation with its   *)
(* arguments) the first time.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
VARIABLES t, l, st
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
RECURSIVE PutAll(_, _, _)
PutAll(f, s, n) == IF n = 0 THEN f ELSE PutAll(Put(f, s[n].id, s[n].dg), s, n - 1)
Same(s, objs) == \A i \in DOMAIN objs : objs[i].id \in DOMAIN s.heap /\ s.heap[objs[i].id] = objs[i].dg
Clauses(s, e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "fact" -> Need(e.name, e.ok)
      [] e.ev = "make" -> {}
      [] e.ev = "call" -> Need("argument-changed", Same(s, e.objs))
                          \cup Need("not-repeatable", e.op \notin DOMAIN s.seen \/ s.seen[e.op] = e.res)
      [] e.ev = "heap" -> Need("earlier-object-changed", Same(s, e.objs))
      [] OTHER -> {"unknown-event"}
Post(s, e) ==
    CASE e.ev = "make" -> [s EXCEPT !.heap = PutAll(@, e.objs, Len(e.objs))]
      [] e.ev = "call" -> [heap |-> IF e.keep THEN Put(s.heap, e.new, e.res) ELSE s.heap,
                           seen |-> IF e.op \in DOMAIN s.seen THEN s.seen ELSE Put(s.seen, e.op, e.res)]
      [] OTHER -> s
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = [heap |-> [x \in {} |-> ""], seen |-> [x \in {} |-> ""]]
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
