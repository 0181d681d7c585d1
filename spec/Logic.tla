------------------------------- MODULE Logic -------------------------------
(* Hard logic constraints.  A literal <<node, state, neg>> is true if the   *)
(* node has that state, unless negated; an operator applies to a sequence   *)
(* of literals, the last of which is the output of the "-OUT" operators and *)
(* the conclusion of IMPLY.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

LogicOps == {"XOR", "XOROUT", "ATMOSTONE", "OR", "OROUT", "ANDOUT", "IMPLY"}

Trues(b) == Cardinality({i \in DOMAIN b : b[i]})
Holds(op, b) ==
    LET n == Len(b)
        in == SubSeq(b, 1, n - 1)
        out == b[n]
    IN CASE op = "XOR"       -> Trues(b) = 1
         [] op = "ATMOSTONE" -> Trues(b) <= 1
         [] op = "OR"        -> Trues(b) >= 1
         [] op = "XOROUT"    -> Trues(in) <= 1 /\ (out <=> Trues(in) = 1)
         [] op = "OROUT"     -> out <=> Trues(in) >= 1
         [] op = "ANDOUT"    -> out <=> Trues(in) = n - 1
         [] op = "IMPLY"     -> Trues(in) = n - 1 => out

LitTrue(y, lit) == (y[lit[1] + 1] = lit[2]) # (lit[3] = 1)
Satisfies(y, con)  == Holds(con.op, [i \in DOMAIN con.lits |-> LitTrue(y, con.lits[i])])
SatisfiesAll(y, cons) == \A c \in DOMAIN cons : Satisfies(y, cons[c])
=============================================================================
