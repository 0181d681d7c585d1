------------------------------- MODULE Interrupt -------------------------------
(* The one-slack learner, interrupted from the keyboard at any point of an       *)
(* iteration (while it searches for a constraint, after the constraint was       *)
(* stored, inside the quadratic program, before or after the results are         *)
(* written down), then resumed, on every problem of a small family with          *)
(* one-dimensional weights (as in OneSlack).  What the learner keeps is the       *)
(* list of constraints, one multiplier history per constraint, the weights and    *)
(* three curves; after an interruption they have to tell about one and the same   *)
(* iteration, and a resumed run has to end at the optimum as if nothing had       *)
(* happened.                                                                      *)
(* Truncate = FALSE is the learner that keeps what the interrupted iteration left *)
(* behind: its resumed run takes the stored constraint for an old one and stops   *)
(* at once, away from the optimum (Optimal and Aligned are violated).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
CONSTANTS Truncate, MaxInt, Lab

G == 12
Grid == -(2 * G) .. (2 * G)
LabSmall == {<<-1, 1>>, <<2, 1>>, <<0, 2>>}                         \* <<d, l>>
LabBig == LabSmall \cup {<<1, 1>>, <<1, 2>>}
Zero == <<0, 0>>
VARIABLES prob, w, cons, alphas, nobj, nprim, wobj, pc, slack, ints, hist
vars == <<prob, w, cons, alphas, nobj, nprim, wobj, pc, slack, ints, hist>>
Vio(v, c) == G * c[2] - v * c[1]
Obj(v, x) == v * v + 2 * G * x
MaxV(v, S) == Max({Vio(v, c) : c \in S})
Risk(v) == Obj(v, MaxV(v, Range(prob[1])) + MaxV(v, Range(prob[2])))
Opt == Min({Risk(v) : v \in Grid})
QpMin(cs) == Min({Obj(v, MaxV(v, cs)) : v \in Grid})
Argmin(cs) == CHOOSE v \in Grid : Obj(v, MaxV(v, cs)) = QpMin(cs)
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>

Init == /\ prob \in [1..2 -> {<<Zero, a, b>> : a \in Lab, b \in Lab}]
        /\ w = 0 /\ cons = <<Zero>> /\ alphas = 1 /\ nobj = 0 /\ nprim = 0 /\ wobj = 0
        /\ pc = "search" /\ slack = -1 /\ ints = 0 /\ hist = {0}
Weak(c) == Vio(w, c) <= slack \/ c \in Range(cons)
Search == /\ pc = "search"
          /\ \E a \in Range(prob[1]), b \in Range(prob[2]) :
               /\ Vio(w, a) = MaxV(w, Range(prob[1])) /\ Vio(w, b) = MaxV(w, Range(prob[2]))
               /\ IF Weak(Add(a, b)) THEN pc' = "end" /\ UNCHANGED <<cons, nprim>>
                  ELSE pc' = "solve" /\ cons' = Append(cons, Add(a, b)) /\ nprim' = nprim + 1
          /\ UNCHANGED <<prob, w, alphas, nobj, wobj, slack, ints, hist>>
\* the quadratic program is solved: multipliers are stored, weights set
Solve == /\ pc = "solve" /\ pc' = "record"
         /\ w' = Argmin(Range(cons)) /\ alphas' = alphas + 1
         /\ hist' = hist \cup {Argmin(Range(cons))}
         /\ UNCHANGED <<prob, cons, nobj, nprim, wobj, slack, ints>>
Record == /\ pc = "record" /\ pc' = "search"
          /\ slack' = Max({0, MaxV(w, Range(cons))})
          /\ nobj' = nobj + 1 /\ wobj' = QpMin(Range(cons))
          /\ UNCHANGED <<prob, w, cons, alphas, nprim, ints, hist>>
\* a crash point: the entry of the search, of the solver, or of the logger
Interrupt == /\ pc \in {"search", "solve"} /\ ints < MaxInt
             /\ pc' = "stopped" /\ ints' = ints + 1
             /\ IF Truncate THEN cons' = SubSeq(cons, 1, alphas) /\ nprim' = nobj
                ELSE UNCHANGED <<cons, nprim>>
             /\ UNCHANGED <<prob, w, alphas, nobj, wobj, slack, hist>>
Resume == /\ pc = "stopped" /\ pc' = "search" /\ slack' = -1
          /\ UNCHANGED <<prob, w, cons, alphas, nobj, nprim, wobj, ints, hist>>
Next == Search \/ Solve \/ Record \/ Interrupt \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

At == pc \in {"stopped", "end"}
Aligned == At => Len(cons) = alphas /\ nobj = nprim
\* the weights are an iterate, optimal for the constraints that are kept
Iterate == At => w \in hist /\ Obj(w, MaxV(w, Range(cons))) = QpMin(Range(cons))
DualTold == At /\ nobj > 0 => wobj = QpMin(Range(cons))
Truthful == \A c \in Range(cons) : c = Zero \/ \E a \in Range(prob[1]), b \in Range(prob[2]) : c = Add(a, b)
Optimal == pc = "end" => Risk(w) = Opt
Ends == <>(pc = "end")
================================================================================
