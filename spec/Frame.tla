-------------------------------- MODULE Frame --------------------------------
(* Calls, the objects they are given and the buffers they work in.            *)
(*                                                                            *)
(* An operation reads its arguments, fills a buffer with what it derives from *)
(* them (potentials, a difference of joint features, a list of samples),      *)
(* changes the buffer in place (loss augmentation, forbidden states, the      *)
(* solver's scaling, shuffling) and returns a result. Where the derived value *)
(* equals an argument, a careless implementation takes the argument itself as *)
(* the buffer (Alias): then a later call sees a changed argument. With        *)
(* Alias = {} callers' objects keep their values (Untouched), and what a call *)
(* returns depends on nothing but its arguments (Repeatable), whatever was    *)
(* called before, and results already handed out stay (Kept).                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ops, Args, Alias, Depth
\* Op o reads argument Reads[o] (an object of the caller), adds Delta[o] in place
VARIABLES heap, seen, out, h
vars == <<heap, seen, out, h>>
V0(a) == a * 10
Init == /\ heap = [a \in Args |-> V0(a)]
        /\ seen = {} /\ out = <<>> /\ h = 0
Call(o, a) ==
    LET buf == heap[a] + o                      \* derived and changed in place
    IN /\ heap' = IF o \in Alias THEN [heap EXCEPT ![a] = buf] ELSE heap
       /\ seen' = seen \cup {<<o, a, buf>>}
       /\ out' = Append(out, [val |-> buf, of |-> IF o \in Alias THEN a ELSE -1])
       /\ h' = h + 1
Next == h < Depth /\ \E o \in Ops, a \in Args : Call(o, a)
Spec == Init /\ [][Next]_vars
Untouched == \A a \in Args : heap[a] = V0(a)
Repeatable == \A p, q \in seen : p[1] = q[1] /\ p[2] = q[2] => p[3] = q[3]
Kept == \A i \in DOMAIN out : out[i].of # -1 => heap[out[i].of] = out[i].val
==============================================================================
