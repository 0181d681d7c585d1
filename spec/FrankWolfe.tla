------------------------------ MODULE FrankWolfe ------------------------------
(* Block-coordinate Frank-Wolfe on every small problem: one block per sample,    *)
(* its vertices (difference vector d, loss l) incl. the origin (the true         *)
(* labeling).  C = 1.  Step sizes are multiples of 1/2, values are scaled by U,   *)
(* which every reachable denominator divides, so the arithmetic is exact.         *)
EXTENDS Num
CONSTANTS NS, Ds, Ls, MaxStep, LineSearch
VARIABLES vert,      \* per sample the vertex besides the origin: <<d, l>>
          W, L, k, avW, avL, best, low
vars == <<vert, W, L, k, avW, avL, best, low>>
U == 64
V(i) == {<<0, 0>>, vert[i]}
Tot(f) == Sum(f)
\* dual and primal value times U * U
Dual(w, l) == U * l - (w * w) \div 2
DualOk(w)  == (w * w) % 2 = 0
Risk(w)    == U * Sum([i \in 1..NS |-> Max({U * v[2] - w * v[1] : v \in V(i)})]) + (w * w) \div 2
\* most violated vertices at w
Worst(w, i) == {v \in V(i) : \A u \in V(i) : U * v[2] - w * v[1] >= U * u[2] - w * u[1]}
Gam == {0, 1, 2}                                  \* halves
Move(a, v, g) == ((2 - g) * a + g * U * v) \div 2
After(i, v, g) == Dual(Tot(W) - W[i] + Move(W[i], v[1], g), Tot(L) - L[i] + Move(L[i], v[2], g))
Init == /\ vert \in [1..NS -> Ds \X Ls]
        /\ W = [i \in 1..NS |-> 0] /\ L = [i \in 1..NS |-> 0] /\ k = 0
        /\ avW = 0 /\ avL = 0
        /\ best = Risk(0) /\ low = 0
Next == /\ k < MaxStep
        /\ \E i \in 1..NS : \E v \in Worst(Tot(W), i) : \E g \in Gam : \E h \in {0, 1, 2} :
             LET w1 == [W EXCEPT ![i] = Move(@, v[1], g)]
                 l1 == [L EXCEPT ![i] = Move(@, v[2], g)]
             IN /\ LineSearch => \A q \in Gam : After(i, v, g) >= After(i, v, q)
                /\ W' = w1 /\ L' = l1 /\ k' = k + 1
                \* weight averaging: any convex combination
                /\ avW' = ((2 - h) * avW + h * Tot(w1)) \div 2
                /\ avL' = ((2 - h) * avL + h * Tot(l1)) \div 2
                /\ best' = Min({best, Risk(Tot(w1))})
                /\ low' = Max({low, Dual(Tot(w1), Tot(l1))})
        /\ UNCHANGED vert
Spec == Init /\ [][Next]_vars
\* blocks stay in the hull of their vertices
Hull == \A i \in 1..NS : \E a \in 0..U : W[i] = a * vert[i][1] /\ L[i] = a * vert[i][2]
\* every dual value is below every risk, of iterates and averages
WeakDuality == /\ low <= best + 1
               /\ Dual(avW, avL) <= best + 1
               /\ low <= Risk(avW) + 1
\* the duality gap as the algorithm computes it
GapOk == LET w == Tot(W)
             ws == [i \in 1..NS |-> CHOOSE v \in Worst(w, i) : TRUE]
             gap == w * (w - U * Sum([i \in 1..NS |-> ws[i][1]])) - U * Tot(L) + U * U * Sum([i \in 1..NS |-> ws[i][2]])
         IN gap >= 0 /\ Abs(Risk(w) - Dual(w, Tot(L)) - gap) <= 1
Monotone == [][LineSearch => Dual(Tot(W'), Tot(L')) >= Dual(Tot(W), Tot(L))]_vars
DDef == {-2, -1, 0, 1}
==============================================================================
