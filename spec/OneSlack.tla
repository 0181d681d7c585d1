------------------------------- MODULE OneSlack -------------------------------
(* The one-slack cutting-plane algorithm with inference cache, pruning of      *)
(* inactive constraints and early stopping, on every problem of a small family *)
(* with one-dimensional weights, where the quadratic program can be solved     *)
(* exactly: the weights that matter are multiples of 1/G.  Two samples, each   *)
(* with the true labeling (0, 0) and two more labelings (d, l): difference of  *)
(* the (one-dimensional) joint feature and loss.                               *)
(* Values of objectives are scaled by 2 * G^2.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

CONSTANTS Cap,          \* size of the cache (0: none)
          Prune,        \* whether inactive constraints may be dropped
          KeepZero      \* whether the constraint of the true labelings is kept

G == 12
C == 1
Grid == -(2 * G) .. (2 * G)
Lab == {<<-1, 1>>, <<1, 1>>, <<2, 1>>, <<0, 2>>, <<1, 2>>}     \* <<d, l>>
Zero == <<0, 0>>

VARIABLES prob,         \* sample -> sequence of labelings, the first is the true one
          w, cons, cache, pc, dual, viol, slack, dropped, steps
vars == <<prob, w, cons, cache, pc, dual, viol, slack, dropped, steps>>

Samples == 1 .. 2
\* margin violation of (d, l) at weight v/G, times G
Vio(v, c) == G * c[2] - v * c[1]
\* C * hinge + v^2/2, times 2 G^2
Obj(v, x) == v * v + 2 * G * C * x
MaxV(v, S) == Max({Vio(v, c) : c \in S})
Risk(v) == Obj(v, MaxV(v, Range(prob[1])) + MaxV(v, Range(prob[2])))
Opt == Min({Risk(v) : v \in Grid})
QpVal(v, cs) == Obj(v, MaxV(v, cs))
QpMin(cs) == Min({QpVal(v, cs) : v \in Grid})
Argmin(cs) == CHOOSE v \in Grid : QpVal(v, cs) = QpMin(cs)
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>

Init ==
  /\ prob \in [Samples -> {<<Zero, a, b>> : a \in Lab, b \in Lab}]
  /\ w = 0 /\ cons = {Zero} /\ cache = [i \in Samples |-> <<>>]
  /\ pc = "choose" /\ dual = -1 /\ viol = 0 /\ slack = -1 /\ dropped = FALSE /\ steps = 0

Weak(c) == Vio(w, c) <= slack \/ c \in cons
Refit(c) ==
  LET cs == cons \cup {c}
      v  == Argmin(cs)
  IN /\ w' = v /\ dual' = QpMin(cs)
     /\ \E out \in IF Prune THEN SUBSET {d \in cs : Vio(v, d) < MaxV(v, cs) /\ (d # Zero \/ ~KeepZero)}
                   ELSE {{}} :
           /\ cons' = cs \ out
           /\ slack' = Max({0, MaxV(v, cs \ out)})
           /\ dropped' = (out # {})
     /\ steps' = steps + 1
     /\ pc' = "choose"
     /\ UNCHANGED prob

\* from the cache
Cached ==
  /\ pc = "choose" /\ \A i \in Samples : cache[i] # <<>>
  /\ \E a \in Range(cache[1]), b \in Range(cache[2]) :
       /\ Vio(w, a) = MaxV(w, Range(cache[1])) /\ Vio(w, b) = MaxV(w, Range(cache[2]))
       /\ ~Weak(Add(a, b))
       /\ Refit(Add(a, b))
  /\ UNCHANGED <<cache, viol>>

Enqueue(q, a) == IF Cap = 0 \/ a \in Range(q) THEN q
                 ELSE Append(IF Len(q) >= Cap THEN Tail(q) ELSE q, a)
\* by separation; may be chosen although the cache has a violated constraint
Separate ==
  /\ pc = "choose"
  /\ \E a \in Range(prob[1]), b \in Range(prob[2]) :
       /\ Vio(w, a) = MaxV(w, Range(prob[1])) /\ Vio(w, b) = MaxV(w, Range(prob[2]))
       /\ viol' = Vio(w, Add(a, b))
       /\ IF Weak(Add(a, b)) THEN /\ pc' = "stop"
                                  /\ UNCHANGED <<prob, w, cons, cache, dual, slack, dropped, steps>>
          ELSE /\ Refit(Add(a, b))
               /\ cache' = [cache EXCEPT ![1] = Enqueue(@, a), ![2] = Enqueue(@, b)]

Next == Cached \/ Separate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
LowerBound == dual <= Opt
Optimal    == pc = "stop" => Risk(w) = Opt
Truthful   == \A c \in cons : c = Zero \/ \E a \in Range(prob[1]), b \in Range(prob[2]) : c = Add(a, b)
CacheOk    == \A i \in Samples : Len(cache[i]) <= Cap /\ IsInjective(cache[i]) /\ Range(cache[i]) \subseteq Range(prob[i])
Monotone   == [][dropped \/ dual' >= dual]_vars
Terminates == <>(pc = "stop")
Bound      == steps <= 12
==============================================================================
