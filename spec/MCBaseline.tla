------------------------------ MODULE MCBaseline ------------------------------
(* All data sets of N points on a line and all grid points of the primal and    *)
(* the dual: no dual value exceeds a primal value, and the bounds meet up to     *)
(* the width of the grid.  Packing of symmetric matrices.                        *)
EXTENDS Baseline
CONSTANTS N, R, G
H == FX \div G
Grid == {k * H : k \in (0 - 2 * G) .. (2 * G)}
Pts == {[x |-> <<v>>, y |-> s] : v \in (0 - R) .. R, s \in {-1, 1}}
VARIABLES D, M
Datas == {d \in [1..N -> Pts] : {d[i].y : i \in 1..N} = {-1, 1}}
Zero == [i \in 1..2 |-> <<0, 0>>]
Init == \/ D \in Datas /\ M = Zero
        \/ D = (CHOOSE d \in Datas : TRUE) /\ M \in [1..2 -> [1..2 -> 0..2]]
Next == FALSE /\ UNCHANGED <<D, M>>
Spec == Init /\ [][Next]_<<D, M>>
Duals == {a \in [1..N -> {k * H : k \in 0..G}] : SvmFeasible(D, 1, 1, a, 0)}
WB == Grid \X {k * H : k \in (0 - 3 * G) .. (3 * G)}
P(c) == SvmPrimal(D, 1, 1, <<c[1]>>, c[2])
BestP == Min({P(c) : c \in WB})
BestD == Max({SvmDual(D, a) : a \in Duals})
Weak == M # Zero \/ BestD <= BestP + 8
Meet == M # Zero \/ BestP - BestD <= FX \div 4
Round == /\ Unpack(Lower(Symmetrize(M)), 2) = Symmetrize(M)
         /\ IsSym(Symmetrize(M)) /\ Len(Lower(M)) = 3
         /\ (IsSym(M) => Unpack(Lower(M), 2) = M)
=============================================================================
