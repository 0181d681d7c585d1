----------------------------- MODULE MCLattice -----------------------------
(* The lattice of Models.tla, for every size up to MaxH x MaxW and both      *)
(* neighborhoods: every pair of neighboring cells is used exactly once, the  *)
(* direction features say which direction it is, and turning the grid        *)
(* around turns the lattice around.                                          *)
EXTENDS Models
CONSTANTS MaxH, MaxW
VARIABLES h, w, nb
Init == h \in 1..MaxH /\ w \in 1..MaxW /\ nb \in {4, 8}
Next == UNCHANGED <<h, w, nb>>
Spec == Init /\ [][Next]_<<h, w, nb>>

Row(k) == k \div w
Col(k) == k % w
DR(e) == Row(e[2]) - Row(e[1])
DC(e) == Col(e[2]) - Col(e[1])
Cells == 0..(h * w - 1)
Neighbors(a, b) ==
    LET r == Abs(Row(a) - Row(b))
        c == Abs(Col(a) - Col(b))
    IN IF nb = 4 THEN r + c = 1 ELSE Max2(r, c) = 1
E == GridEdges(h, w, nb)
InGrid == \A k \in DOMAIN E : E[k][1] \in Cells /\ E[k][2] \in Cells
EachPairOnce == /\ \A a, b \in Cells : Neighbors(a, b) => \E k \in DOMAIN E : {E[k][1], E[k][2]} = {a, b}
                /\ \A k \in DOMAIN E : Neighbors(E[k][1], E[k][2])
                /\ \A k, q \in DOMAIN E : {E[k][1], E[k][2]} = {E[q][1], E[q][2]} => k = q
Count == Len(E) = h * (w - 1) + (h - 1) * w + (IF nb = 8 THEN 2 * (h - 1) * (w - 1) ELSE 0)
\* right, down, up-right, down-right
Dir == <<<<0, 1>>, <<1, 0>>, <<-1, 1>>, <<1, 1>>>>
Features == LET f == DirFeatures(h, w, nb)
            IN /\ Len(f) = Len(E)
               /\ \A k \in DOMAIN E : \A d \in 1..(IF nb = 4 THEN 2 ELSE 4) :
                     f[k][d] = B2N(<<DR(E[k]), DC(E[k])>> = Dir[d])
Flip(k) == Col(k) * h + Row(k)
Transposed == LET G == GridEdges(w, h, nb)
              IN {{Flip(E[k][1]), Flip(E[k][2])} : k \in DOMAIN E} = {{G[k][1], G[k][2]} : k \in DOMAIN G}
=============================================================================
