------------------------------ MODULE MCLogic ------------------------------
(* The operators obey the laws one expects of their names, for every vector *)
(* of at most MaxN literals; and the arrangement of a constraint by node    *)
(* type (literals grouped by type, the distinguished one last) does not     *)
(* change its meaning.                                                      *)
EXTENDS Logic, SequencesExt
CONSTANT MaxN
VARIABLES b, nt                          \* literal values, types of the literals
Vecs(T) == UNION {[1..n -> T] : n \in 1..MaxN}
Init == b = <<>> /\ nt = <<>>
Next == b = <<>> /\ b' \in Vecs(BOOLEAN) /\ nt' \in [1..Len(b') -> {0, 1}]
Spec == Init /\ [][Next]_<<b, nt>>
Neg(v) == [i \in DOMAIN v |-> ~ v[i]]
\* grouped by type, the last literal stays last
Grouped == LET n == Len(b)
               ids == [i \in 1..n |-> i]
               Of(t) == SelectSeq(ids, LAMBDA i : i < n /\ nt[i] = t)
               o == Of(0) \o Of(1) \o <<n>>
           IN [i \in 1..n |-> b[o[i]]]
Laws ==
  b = <<>> \/
    LET n == Len(b)
        in == SubSeq(b, 1, n - 1)
    IN /\ Holds("XOR", b) <=> (Holds("ATMOSTONE", b) /\ Holds("OR", b))
       /\ Holds("XOROUT", b) => Holds("OROUT", b)
       /\ (n > 1) => (Holds("XOROUT", b) <=> (Holds("OROUT", b) /\ Holds("ATMOSTONE", in)))
       \* de Morgan
       /\ Holds("ANDOUT", b) <=> Holds("OROUT", Neg(b))
       /\ Holds("IMPLY", b) <=> Holds("OR", Neg(in) \o <<b[n]>>)
       /\ Holds("ANDOUT", b) => Holds("IMPLY", b)
       \* XOROUT is XOR with the output negated
       /\ Holds("XOROUT", b) <=> Holds("XOR", in \o <<~ b[n]>>)
       /\ \A op \in LogicOps : Holds(op, b) <=> Holds(op, Grouped)
       \* no operator is trivial or contradictory for two or more literals
       /\ \A op \in LogicOps : (n > 1) =>
             /\ \E v \in [1..n -> BOOLEAN] : Holds(op, v)
             /\ \E v \in [1..n -> BOOLEAN] : ~ Holds(op, v)
=============================================================================
