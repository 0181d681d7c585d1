---------------------------- MODULE MCDatasets ----------------------------
(* Every painting of every generator at small sizes: labels stay inside the  *)
(* task, every state of the task can be told from the input where it should, *)
(* and the patterns use every state.                                         *)
EXTENDS Datasets, TLC
CONSTANT Sizes
Gens == {"easy", "bars", "hole", "crosses", "crosses_explicit", "crosses_latent", "xs", "easy_explicit"}
Par(n, b, s) == [size |-> n, box |-> b, separate |-> s, n_crosses |-> 2]
VARIABLES g, p, q1, q2
Fill(h, r, a, b) == [i \in 1..r.size |-> [j \in 1..r.size |->
                        Over(Shape(h, r, b, i - 1, j - 1), Over(Shape(h, r, a, i - 1, j - 1), 0))]]
Init == /\ g \in Gens /\ p \in {Par(n, b, s) : n \in Sizes, b \in {2, 3}, s \in BOOLEAN}
        /\ q1 \in Places(g, p) /\ q2 \in Places(g, p)
        /\ IF 2 \in Counts(g, p) THEN After(g, q1, q2) ELSE q1 = q2
Next == UNCHANGED <<g, p, q1, q2>>
Spec == Init /\ [][Next]_<<g, p, q1, q2>>
Y == Fill(g, p, q1, q2)
InTask == \A i, j \in 1..p.size : Y[i][j] \in 0..(States(g, p) - 1)
IsPainted == Painted(g, p, Y)
NotEmpty == \E i, j \in 1..p.size : Y[i][j] # 0
CleanInput == LET X == [i \in 1..p.size |-> [j \in 1..p.size |-> Encode(g, p, Base(g, Y[i][j]))]]
              IN Wrong(g, p, X, Y) = {} /\ Encoded(g, p, X)
\* distinct values of what the input can tell have distinct encodings
Told == \A a, b \in Flips(g, p) : a # b => Encode(g, p, a) # Encode(g, p, b)
\* the argmax of the clean input of a pattern is its label
ArgMax == \A h \in {"blocks", "big_checker", "blocks_multinomial", "checker_multinomial", "big_checker_extended"} :
            \A y \in 0..(States(h, p) - 1) : LET m == Mean(h, y) IN \A k \in DOMAIN m : m[k] <= m[y + 1]
PatternsFull == \A h \in {"blocks", "checker", "big_checker", "blocks_multinomial", "checker_multinomial"} :
    LET r == [size_x |-> 6, n_fields |-> 3, field_size |-> 2]
    IN \A y \in 0..(States(h, r) - 1) : \E i \in 0..(PatH(h, r) - 1), j \in 0..(PatW(h, r) - 1) : Pattern(h, r, i, j) = y
ASSUME PatternsFull
=============================================================================
