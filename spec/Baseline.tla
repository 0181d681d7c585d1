------------------------------- MODULE Baseline -------------------------------
(* What the plain linear SVM (with an intercept) has to find, and why a dual   *)
(* certificate decides it.  Data: a sequence of [x, y] with integer features   *)
(* and labels -1 / 1.  C times the summed hinge loss plus half the squared     *)
(* norm, minimized over weights and intercept; the dual maximizes               *)
(* sum a_i - |sum a_i y_i x_i|^2 / 2 over 0 <= a_i <= C with sum a_i y_i = 0.   *)
EXTENDS Num

\* scale FX throughout; w, b, a fixed point
Decision(x, w, b) == Dot(x, w) + b
Hinge(s, w, b)    == Max2(0, FX - s.y * Decision(s.x, w, b))
SvmPrimal(D, CN, CD, w, b) ==
    (CN * Sum([i \in DOMAIN D |-> Hinge(D[i], w, b)])) \div CD + FNorm2(w) \div 2
Spanned(D, a) == VSum([i \in DOMAIN D |-> VScale(D[i].y * a[i], D[i].x)], VZero(Len(D[1].x)))
\* sum a_i y_i may be off by the rounding of the certificate
SvmFeasible(D, CN, CD, a, tol) ==
    /\ \A i \in DOMAIN D : a[i] >= 0 /\ a[i] <= (CN * FX) \div CD
    /\ Abs(Sum([i \in DOMAIN D |-> D[i].y * a[i]])) <= tol
SvmDual(D, a) == Sum([i \in DOMAIN D |-> a[i]]) - FNorm2(Spanned(D, a)) \div 2

\* symmetric matrices as vectors: the lower triangle, row by row
Lower(M)       == FlattenSeq([i \in DOMAIN M |-> SubSeq(M[i], 1, i)])
Symmetrize(M)  == [i \in DOMAIN M |-> [j \in DOMAIN M |-> IF i = j THEN M[i][i] ELSE M[i][j] + M[j][i]]]
IsSym(M)       == \A i, j \in DOMAIN M : M[i][j] = M[j][i]
TriIdx(i, j)   == IF i >= j THEN (i * (i - 1)) \div 2 + j ELSE (j * (j - 1)) \div 2 + i
Unpack(v, n)   == [i \in 1..n |-> [j \in 1..n |-> v[TriIdx(i, j)]]]
=============================================================================
