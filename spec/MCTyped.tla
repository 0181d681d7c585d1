------------------------------ MODULE MCTyped ------------------------------
(* Typed graphs: the per-type form of labels is a bijection with the flat   *)
(* one, every type's labels are its own range, and with one type the joint  *)
(* feature and potentials are those of the edge feature model.              *)
(* All type structures with at most MaxT types, MaxS states and MaxN nodes  *)
(* per type, all labelings of each.                                         *)
EXTENDS Models
CONSTANTS MaxT, MaxS, MaxN
VARIABLES mm, xx, yy

Val(i) == ((i * 7) % 5) - 2                   \* some numbers
Feat(n, f, o) == [k \in 1..n |-> [q \in 1..f |-> Val(3 * k + q + o)]]
Mk(tS, tF, fe) == [kind |-> "typed", T |-> Len(tS), tS |-> tS, tF |-> tF,
                   tFE |-> [b \in 1..(Len(tS) * Len(tS)) |-> fe], S |-> Sum(tS), pair |-> "typed",
                   D |-> 1, ps |-> 1, cw |-> [i \in 1..Sum(tS) |-> i], L |-> 0, spl |-> <<>>]
\* all edges between different nodes of small graphs
Blk(tn, a, b) == SetToSeq({<<i, j>> \in (0..(tn[a] - 1)) \X (0..(tn[b] - 1)) : a # b \/ i < j})
MkX(tn, tF, fe) ==
    LET T == Len(tn)
        es == [k \in 1..(T * T) |-> Blk(tn, ((k - 1) \div T) + 1, ((k - 1) % T) + 1)]
    IN [tn |-> tn, n |-> Sum(tn), tfeat |-> [t \in 1..T |-> Feat(tn[t], tF[t], t)], tedges |-> es,
        tef |-> [k \in 1..(T * T) |-> Feat(Len(es[k]), fe, 2 * k)]]
Init == \E T \in 1..MaxT : \E tS \in [1..T -> 1..MaxS], tn \in [1..T -> 0..MaxN], fe \in 1..2 :
            /\ mm = Mk(tS, [t \in 1..T |-> 1 + (t % 2)], fe)
            /\ xx = MkX(tn, [t \in 1..T |-> 1 + (t % 2)], fe)
            /\ Sum(tn) > 0
            /\ yy = [k \in 1..Sum(tn) |-> Min(Dom(mm, xx)[k])]
Next == \E k \in DOMAIN yy : \E s \in Dom(mm, xx)[k] :
            yy' = [yy EXCEPT ![k] = s] /\ UNCHANGED <<mm, xx>>
Spec == Init /\ [][Next]_<<mm, xx, yy>>

RoundTrip == FlatLabels(mm, PerType(mm, xx, yy)) = yy
OwnRange  == \A t \in 1..mm.T : \A k \in 1..xx.tn[t] : PerType(mm, xx, yy)[t][k] \in 0..(mm.tS[t] - 1)
Disjoint  == \A a, b \in DOMAIN yy : TypeOf(mm, xx, a) # TypeOf(mm, xx, b) => yy[a] # yy[b]
W == [i \in 1..SizeJF(mm) |-> Val(i * 3)]
ScoreIsDot == Dot(W, JF(mm, xx, yy)) = Score(mm, xx, W, yy)
\* the twin with one type
M1 == [kind |-> "edgefeat", F |-> mm.tF[1], S |-> mm.tS[1], nin |-> mm.tS[1], pair |-> "ef", FE |-> mm.tFE[1],
       sym |-> <<>>, anti |-> <<>>, ps |-> 1, L |-> 0, spl |-> <<>>, cw |-> mm.cw, D |-> 1]
X1 == [n |-> xx.n, nv |-> 0, feat |-> xx.tfeat[1], edges |-> xx.tedges[1], ef |-> xx.tef[1], shape |-> <<1, 1>>]
Twin == mm.T = 1 => /\ SizeJF(M1) = SizeJF(mm)
                    /\ JF(M1, X1, yy) = JF(mm, xx, yy)
                    /\ Score(M1, X1, W, yy) = Score(mm, xx, W, yy)
                    /\ MaxLossV(M1, yy) = MaxLossV(mm, yy)
=============================================================================
