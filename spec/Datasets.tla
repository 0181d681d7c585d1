------------------------------ MODULE Datasets ------------------------------
(* The synthetic grid data sets: labelings as paintings of shapes at allowed  *)
(* places on an empty grid (or closed patterns), inputs as encodings of the   *)
(* labels of which at most `noise` cells were replaced (or to which scaled    *)
(* normal noise was added).  Rows and columns are counted from zero.          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
At(Y, r, c) == Y[r + 1][c + 1]
GridOK(Y, H, W) == Len(Y) = H /\ \A r \in 1..H : Len(Y[r]) = W
Even(a) == a % 2 = 0

(* ---- patterns: the label of a cell, the input of a label without noise --- *)
IsPattern(g) == g \in {"blocks", "checker", "big_checker", "blocks_multinomial", "checker_multinomial", "big_checker_extended"}
\* p: the parameters of the call
PatH(g, p) == CASE g = "blocks" -> 10
                [] g = "checker" -> 11
                [] g \in {"big_checker", "big_checker_extended"} -> p.n_fields * p.field_size
                [] OTHER -> p.size_x - 2
PatW(g, p) == CASE g = "blocks" -> 12
                [] g = "checker" -> 13
                [] g \in {"big_checker", "big_checker_extended"} -> p.n_fields * p.field_size
                [] OTHER -> p.size_x
Pattern(g, p, r, c) ==
    CASE g = "blocks" -> IF c < 6 THEN 0 ELSE 1
      [] g = "checker" -> IF Even(r + c) THEN 0 ELSE 1
      [] g = "big_checker" -> IF Even((r \div p.field_size) + (c \div p.field_size)) THEN 1 ELSE 0
      [] g = "blocks_multinomial" -> LET s == p.size_x \div 3
                                     IN IF c >= p.size_x - s THEN 2 ELSE IF c < s THEN 0 ELSE 1
      [] g = "checker_multinomial" -> IF Even(r) /\ Even(c) THEN 0 ELSE IF ~Even(r) /\ ~Even(c) THEN 1 ELSE 2
      [] g = "big_checker_extended" ->
            IF r % 3 = 1 /\ c % 3 = 1 THEN (IF (r % 6) = (c % 6) THEN 3 ELSE 1)
            ELSE IF Even((r \div p.field_size) + (c \div p.field_size)) THEN 2 ELSE 0
\* the input of label y, without noise (times 100 for big_checker_extended)
OneHot(K, y) == [k \in 1..K |-> IF k = y + 1 THEN 1 ELSE 0]
Mean(g, y) ==
    CASE g = "blocks" -> IF y = 1 THEN <<-1, 1>> ELSE <<1, -1>>
      [] g = "checker" -> IF y = 1 THEN <<-1, 0>> ELSE <<1, 0>>
      [] g = "big_checker" -> IF y = 1 THEN <<-1, 1>> ELSE <<1, -1>>
      [] g = "blocks_multinomial" -> OneHot(3, y)
      [] g = "checker_multinomial" -> IF y = 0 THEN <<1, -1, 0>> ELSE IF y = 1 THEN <<-1, 1, 0>> ELSE <<-1, -1, 0>>
      [] g = "big_checker_extended" -> OneHot(4, y)
States(g, p) ==
    CASE g \in {"blocks", "checker", "big_checker", "easy", "hole", "crosses", "xs", "simple"} -> 2
      [] g = "bars" -> IF p.separate THEN 3 ELSE 2
      [] g \in {"blocks_multinomial", "checker_multinomial", "crosses_explicit"} -> 3
      [] OTHER -> 4

(* ---- paintings ------------------------------------------------------------ *)
\* the value shape q = [t, l, o] gives cell (r, c); -1: not covered
In(a, lo, n) == a >= lo /\ a < lo + n
Plus(r, c, q, arm, mid) ==
    IF r = q.t + 1 /\ c = q.l + 1 THEN mid
    ELSE IF (r = q.t + 1 /\ In(c, q.l, 3)) \/ (c = q.l + 1 /\ In(r, q.t, 3)) THEN arm ELSE -1
Shape(g, p, q, r, c) ==
    CASE g = "easy" -> IF In(r, q.t, p.box) /\ In(c, q.l, p.box) THEN 1 ELSE -1
      [] g = "bars" -> IF q.o = "v" /\ c = q.l /\ In(r, q.t, p.box) THEN (IF p.separate THEN 2 ELSE 1)
                       ELSE IF q.o = "h" /\ r = q.t /\ In(c, q.l, p.box) THEN 1 ELSE -1
      [] g = "hole" -> IF r = q.t + 1 /\ c = q.l + 1 THEN 0
                       ELSE IF In(r, q.t, 3) /\ In(c, q.l, 3) THEN 1 ELSE -1
      [] g = "crosses" -> Plus(r, c, q, 1, 1)
      [] g = "crosses_explicit" -> Plus(r, c, q, 1, 2)
      [] g = "crosses_latent" -> Plus(r, c, q, 2, 3)
      [] g = "xs" -> IF In(r, q.t + 1, 3) /\ In(c, q.l + 1, 3) /\ (r - q.t = c - q.l \/ (r - q.t) + (c - q.l) = 4) THEN 1 ELSE -1
      [] g = "easy_explicit" -> IF ~(In(r, q.t, 3) /\ In(c, q.l, 3)) THEN -1
                                ELSE IF r = q.t + 1 /\ c = q.l + 1 THEN 3
                                ELSE IF r = q.t + 1 \/ c = q.l + 1 THEN 2 ELSE 1
      [] g = "simple" -> IF In(r, q.t, 2) /\ In(c, q.l, 2) THEN 1 ELSE -1
\* where a shape may be put on a grid of size n
Places(g, p) ==
    LET n == p.size
        S == CASE g = "easy" -> 1..(n - p.box - 1)
               [] g = "bars" -> 1..(n - p.box - 1)
               [] g \in {"hole", "crosses", "xs", "easy_explicit"} -> 1..(n - 4)
               [] g = "crosses_explicit" -> 1..(n - 2)
               [] g = "crosses_latent" -> 0..(n - 3)
               [] g = "simple" -> {0, 2}
    IN [t : S, l : S, o : IF g = "bars" THEN {"h", "v"} ELSE {"-"}]
Far(a, b, d) == Abs(a.t - b.t) > d \/ Abs(a.l - b.l) > d
\* how many shapes there may be, and which second place is allowed after the first
Counts(g, p) == CASE g \in {"easy", "bars"} -> {1, 2}
                  [] g \in {"crosses", "crosses_explicit"} -> {p.n_crosses}
                  [] g = "crosses_latent" -> {2}
                  [] OTHER -> {1}
After(g, a, b) == CASE g \in {"easy", "bars"} -> Far(a, b, 3)
                    [] g \in {"crosses", "crosses_explicit"} -> Far(a, b, 2)
                    [] OTHER -> TRUE
Over(x, y) == IF x # -1 THEN x ELSE y
Painted(g, p, Y) ==
    LET D == {<<r, c>> : r \in 0..(p.size - 1), c \in 0..(p.size - 1)}
        one == \E a \in Places(g, p) : \A d \in D : At(Y, d[1], d[2]) = Over(Shape(g, p, a, d[1], d[2]), 0)
        two == \E a, b \in Places(g, p) :
                  /\ After(g, a, b)
                  /\ \A d \in D : At(Y, d[1], d[2]) = Over(Shape(g, p, b, d[1], d[2]), Over(Shape(g, p, a, d[1], d[2]), 0))
    IN (1 \in Counts(g, p) /\ one) \/ (2 \in Counts(g, p) /\ two)

\* what the input can tell of a label
Base(g, y) == IF g \in {"easy_explicit", "crosses_explicit", "crosses_latent"} /\ y # 0 THEN 1 ELSE y
Encode(g, p, f) ==
    CASE g = "easy_explicit" -> IF f = 0 THEN <<1, 0, 0, 0>> ELSE <<0, 1, 1, 1>>
      [] g = "crosses_explicit" -> IF f = 0 THEN <<1, 0, 0>> ELSE <<0, 1, 1>>
      [] g = "simple" -> IF f = 0 THEN <<-1>> ELSE <<1>>
      [] OTHER -> OneHot(IF g = "bars" THEN States(g, p) ELSE 2, f)
Flips(g, p) == IF g = "bars" THEN 0..(States(g, p) - 1) ELSE {0, 1}
\* every cell encodes some label, at most noise of them another one than Y's
Wrong(g, p, X, Y) == {d \in (0..(p.size - 1)) \X (0..(p.size - 1)) : At(X, d[1], d[2]) # Encode(g, p, Base(g, At(Y, d[1], d[2])))}
Encoded(g, p, X) == \A r \in 0..(p.size - 1), c \in 0..(p.size - 1) :
                       \E f \in Flips(g, p) : At(X, r, c) = Encode(g, p, f)
=============================================================================
