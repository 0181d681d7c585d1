------------------------------ MODULE Averaging ------------------------------
(* The running averages kept by the learners are the documented weighted means *)
(* of the iterates.  Exact rational arithmetic; every sequence of iterates up   *)
(* to MaxLen over Vals.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxLen

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* fractions <<n, d>>, d > 0, in lowest terms
Fr(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Plus(a, b) == Fr(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Times(a, b) == Fr(a[1] * b[1], a[2] * b[2])
\* (1 - r) a + r x
Mix(r, a, x) == Plus(Times(Fr(r[2] - r[1], r[2]), a), Times(r, <<x, 1>>))
RECURSIVE WSum(_, _, _)
WSum(xs, p, k) == IF k = 0 THEN 0 ELSE (IF p = 0 THEN 1 ELSE IF p = 1 THEN k ELSE k * k) * xs[k] + WSum(xs, p, k - 1)
RECURSIVE Wts(_, _)
Wts(p, k) == IF k = 0 THEN 0 ELSE (IF p = 0 THEN 1 ELSE IF p = 1 THEN k ELSE k * k) + Wts(p, k - 1)

VARIABLES xs, mean, lin, sq, fw
vars == <<xs, mean, lin, sq, fw>>
Init == xs = <<>> /\ mean = <<0, 1>> /\ lin = <<0, 1>> /\ sq = <<0, 1>> /\ fw = <<0, 1>>
Next == \E x \in Vals :
          LET t == Len(xs) IN                       \* steps done before this one
          /\ t < MaxLen
          /\ xs' = Append(xs, x)
          /\ mean' = Mix(Fr(1, t + 1), mean, x)                              \* perceptron
          /\ lin' = Mix(Fr(2, t + 2), lin, x)                                \* subgradient "linear"
          /\ sq' = Mix(Fr(6 * (t + 1), (t + 2) * (2 * t + 3)), sq, x)        \* subgradient "squared"
          /\ fw' = Mix(Fr(2, t + 2), fw, x)                                  \* Frank-Wolfe
Spec == Init /\ [][Next]_vars
Is(a, p) == Len(xs) > 0 => a = Fr(WSum(xs, p, Len(xs)), Wts(p, Len(xs)))
MeanOk == Is(mean, 0)
LinOk  == Is(lin, 1)
SqOk   == Is(sq, 2)
FwOk   == Is(fw, 1)
VDef == {-1, 0, 2}
==============================================================================
