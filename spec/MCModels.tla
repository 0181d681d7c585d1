------------------------------- MODULE MCModels -------------------------------
(* Exhaustive check, on small instances of every model family, of the       *)
(* theorems the trace clauses rest on: a state is a labeling under          *)
(* construction by relabeling steps, and the invariants relate joint        *)
(* feature, potentials, loss, and indicator marginals of that labeling.     *)
EXTENDS Models

M0 == [D |-> 1, ps |-> 1, nb |-> 4, L |-> 0, spl |-> <<>>, edges |-> <<>>, sym |-> <<>>, anti |-> <<>>,
       FE |-> 0, T |-> 0, tS |-> <<>>, tF |-> <<>>, tFE |-> <<>>, F |-> 1, S |-> 2, nin |-> 2,
       pair |-> "none", rescale |-> FALSE, cw |-> <<1, 2, 3>>]
X0 == [n |-> 3, nv |-> 0, feat |-> << <<1>>, <<2>>, <<-1>> >>, edges |-> <<>>, ef |-> <<>>, shape |-> <<1, 1>>]
Tri3 == << <<0, 1>>, <<2, 1>>, <<2, 0>> >>
Cases == <<
  << [M0 EXCEPT !.pair = "sym", !.S = 3, !.nin = 3] @@ [kind |-> "graph"], [X0 EXCEPT !.edges = Tri3] >>,
  << [M0 EXCEPT !.pair = "dir", !.S = 2] @@ [kind |-> "graph"], [X0 EXCEPT !.edges = Tri3 \o << <<0, 1>>, <<1, 1>> >>] >>,
  << [M0 EXCEPT !.pair = "dir", !.F = 2] @@ [kind |-> "chain"],
     [X0 EXCEPT !.feat = << <<1, 2>>, <<0, -1>>, <<3, 1>> >>] >>,
  << [M0 EXCEPT !.pair = "sym"] @@ [kind |-> "grid"],
     [X0 EXCEPT !.shape = <<2, 2>>, !.feat = << <<1>>, <<2>>, <<3>>, <<4>> >>] >>,
  << [M0 EXCEPT !.pair = "ef", !.FE = 4, !.nb = 8] @@ [kind |-> "dgrid"],
     [X0 EXCEPT !.shape = <<2, 2>>, !.feat = << <<1>>, <<2>>, <<3>>, <<4>> >>] >>,
  << [M0 EXCEPT !.pair = "ef", !.FE = 3, !.sym = <<0>>, !.anti = <<2>>, !.ps = 2] @@ [kind |-> "edgefeat"],
     [X0 EXCEPT !.edges = Tri3, !.ef = << <<1, 2, 3>>, <<-1, 0, 2>>, <<2, 1, 1>> >>] >>,
  << [M0 EXCEPT !.pair = "mlab", !.L = 3, !.F = 2, !.edges = << <<0, 1>>, <<2, 1>> >>, !.cw = <<1, 1>>] @@ [kind |-> "multilabel"],
     [X0 EXCEPT !.feat = <<3, -2>>] >>,
  << [M0 EXCEPT !.S = 3, !.F = 2] @@ [kind |-> "multiclass"], [X0 EXCEPT !.feat = <<3, -2>>] >>,
  << [M0 EXCEPT !.ps = 2, !.F = 2, !.cw = <<1>>] @@ [kind |-> "binary"], [X0 EXCEPT !.feat = <<3, -2>>] >>,
  << [M0 EXCEPT !.pair = "sym", !.S = 3, !.nin = 3, !.L = 2, !.spl = <<1, 2>>] @@ [kind |-> "lgraph"], [X0 EXCEPT !.edges = Tri3] >>,
  << [M0 EXCEPT !.pair = "ef", !.FE = 2, !.S = 3, !.nin = 3, !.L = 2, !.spl = <<2, 1>>] @@ [kind |-> "ldgrid"],
     [X0 EXCEPT !.shape = <<1, 3>>] >>,
  << [M0 EXCEPT !.pair = "sym", !.S = 4, !.nin = 2, !.L = 2] @@ [kind |-> "lnode"],
     [X0 EXCEPT !.n = 4, !.nv = 2, !.feat = << <<1>>, <<2>> >>, !.edges = << <<0, 2>>, <<3, 1>>, <<2, 3>> >>] >>,
  << [M0 EXCEPT !.pair = "ef", !.FE = 1, !.S = 3, !.nin = 3, !.L = 2] @@ [kind |-> "eflnode"],
     [X0 EXCEPT !.n = 3, !.nv = 2, !.edges = << <<0, 2>>, <<2, 1>> >>, !.ef = << <<2>>, <<-1>> >>] >>,
  << [M0 EXCEPT !.pair = "typed", !.T = 2, !.S = 4, !.tS = <<2, 2>>, !.tF = <<1, 2>>, !.tFE = <<1, 2, 2, 1>>,
                !.cw = <<1, 2, 3, 4>>] @@ [kind |-> "typed"],
     [X0 EXCEPT !.n = 3] @@ [tn |-> <<2, 1>>, tfeat |-> << << <<1>>, <<2>> >>, << <<3, -1>> >> >>,
        tedges |-> << << <<0, 1>> >>, << <<1, 0>> >>, << <<0, 0>> >>, <<>> >>,
        tef |-> << << <<2>> >>, << <<1, -1>> >>, << <<3, 1>> >>, <<>> >>] >>
  >>

VARIABLES c, y
M == Cases[c][1]
X == Cases[c][2]
First(D) == CHOOSE a \in D : \A b \in D : a <= b
Init == /\ c \in DOMAIN Cases
        /\ y = [k \in DOMAIN Dom(Cases[c][1], Cases[c][2]) |-> First(Dom(Cases[c][1], Cases[c][2])[k])]
\* relabel one node
Relabel(k, a) == y' = [y EXCEPT ![k] = a] /\ UNCHANGED c
Next == \E k \in DOMAIN y : \E a \in Dom(M, X)[k] : Relabel(k, a)
Spec == Init /\ [][Next]_<<c, y>>

\* a weight vector that respects the feature symmetries
Wt(i) == ((i * 7 + 3) % 5) - 2
W == LET base == [i \in 1..SizeJF(M) |-> Wt(i)]
         o == M.nin * M.F
     IN IF M.pair # "ef" THEN base
        ELSE [i \in 1..SizeJF(M) |->
               IF i <= o THEN base[i]
               ELSE LET q == i - o - 1
                        f == q \div (M.S * M.S)
                        a == (q % (M.S * M.S)) \div M.S
                        b == q % M.S
                    IN IF InSeq(M.sym, f) THEN Wt(o + f + a * b + a + b)
                       ELSE IF InSeq(M.anti, f) THEN (a - b) * Wt(f + a + b + a * b) ELSE base[i]]

SizeOK == Len(JF(M, X, y)) = SizeJF(M)
LinearScore == Dot(W, JF(M, X, y)) = Score(M, X, W, y)
LegalOK == Legal(M, X, y)
HasVis == M.kind \notin {"binary", "multiclass"}
Indicator == HasVis => JFRel(M, X, IndMu(M, X, y, 1), IndNu(M, X, y, 1)) = JF(M, X, y)
LossZero == Loss(M, X, y, y) = 0
\* every labeling y2: loss axioms, linear extension of the loss
LossAxioms == \A y2 \in Labelings(Dom(M, X)) :
    LET L == Loss(M, X, y, y2)
    IN /\ L >= 0
       /\ (Visible(M, X, y) = Visible(M, X, y2)) <=> (L = 0)
       /\ L <= MaxLossV(M, Visible(M, X, y))
       /\ HasVis => LossRel(M, X, y, IndMu(M, X, y2, 1), 1) = L
\* convex combinations (K = 2) give the combination
Convex == HasVis => \A y2 \in Labelings(Dom(M, X)) :
    LET Comb(a, b) == [k \in DOMAIN a |-> VAdd(a[k], b[k])]
        CombT(a, b) == [t \in DOMAIN a |-> Comb(a[t], b[t])]
        mu == IF M.kind = "typed" THEN CombT(IndMu(M, X, y, 1), IndMu(M, X, y2, 1))
              ELSE Comb(IndMu(M, X, y, 1), IndMu(M, X, y2, 1))
        nu == IF M.kind = "typed" THEN CombT(IndNu(M, X, y, 1), IndNu(M, X, y2, 1))
              ELSE Comb(IndNu(M, X, y, 1), IndNu(M, X, y2, 1))
    IN JFRel(M, X, mu, nu) = VAdd(JF(M, X, y), JF(M, X, y2))
\* a relabeling step changes the score by the local difference only
LocalChange == [][ \A k \in DOMAIN y : (y'[k] # y[k]) =>
     LET p == Pot(M, X, W)
         Loc(z) == p.u[k][z[k]] + Sum([e \in DOMAIN p.es |->
                     IF p.es[e][1] + 1 = k \/ p.es[e][2] + 1 = k
                     THEN p.pw[e][<<z[p.es[e][1] + 1], z[p.es[e][2] + 1]>>] ELSE 0])
     IN PScore(p, y') - PScore(p, y) = Loc(y') - Loc(y) ]_<<c, y>>
\* latent completions of the visible part include the labeling itself
Completion == IsLatent(M) =>
    LET d == ConsistentDom(M, X, Visible(M, X, y))
    IN \A k \in DOMAIN d : y[k] \in d[k]
\* elimination, in both directions, finds the enumerated maximum and tells whether
\* it is attained once
Elimination ==
    LET p  == Pot(M, X, W)
        n  == Len(p.u)
        up == [k \in 1..n |-> k]
        dn == [k \in 1..n |-> n + 1 - k]
        Same(q, dom) == LET ys == Labelings(dom)
                            mx == PMaxOver(q, dom)
                            r  == <<mx, Min2(2, Cardinality({z \in ys : PScore(q, z) = mx}))>>
                        IN EMaxOver(q, dom, up) = r /\ EMaxOver(q, dom, dn) = r
    IN /\ Same(p, p.dom)
       /\ Same(AugPot(M, X, p, y), p.dom)
       /\ EMaxOver(AugPot(M, X, p, y), p.dom, up)[1] = AugMax(M, X, p, y)
       /\ (IsLatent(M) => Same(p, ConsistentDom(M, X, Visible(M, X, y))))
===============================================================================
