------------------------------- MODULE Models -------------------------------
(* What the structured models of pystruct mean: the graph of an instance,   *)
(* the joint feature, potentials, score, loss, the legal labelings and the  *)
(* latent-to-visible map, for every model class.  Written from the          *)
(* documentation of the classes; nothing here follows the implementation.   *)
(*                                                                          *)
(* A model is a record m, an instance a record x (both come from JSON):     *)
(*   m.kind  graph chain grid dgrid edgefeat multilabel multiclass binary   *)
(*           lgraph lgrid ldgrid lnode eflnode typed                        *)
(*   m.S  number of states (of a node, incl. latent/hidden)   m.F features  *)
(*   m.pair  how pairwise weights are laid out: sym dir ef mlab typed none  *)
(*   m.FE, m.sym, m.anti  edge features, (anti)symmetric ones (0-based)     *)
(*   m.nin  number of states that have unary weights                        *)
(*   m.L, m.spl   visible labels, latent states per label                   *)
(*   m.cw  class weights, scaled by the event's denominator D               *)
(*   m.ps  scale of joint features (2 where halves occur)                   *)
(* States, labels and node indices in x are 0-based as in the code.         *)
EXTENDS Num

IsGrid(m)   == m.kind \in {"grid", "dgrid", "lgrid", "ldgrid"}
IsLG(m)     == m.kind \in {"lgraph", "lgrid", "ldgrid"}
IsLN(m)     == m.kind \in {"lnode", "eflnode"}
IsLatent(m) == IsLG(m) \/ IsLN(m)

------------------------------------------------------------- \* instance graphs
\* the lattice: every horizontal / vertical (/ diagonal) neighbor pair once,
\* oriented to the right / downwards / up-right / down-right
Cell(w, r, c) == r * w + c
RightE(h, w) == [k \in 1..(h * (w - 1)) |->
                   LET r == (k - 1) \div (w - 1)
                       c == (k - 1) % (w - 1)
                   IN <<Cell(w, r, c), Cell(w, r, c + 1)>>]
DownE(h, w)  == [k \in 1..((h - 1) * w) |->
                   LET r == (k - 1) \div w
                       c == (k - 1) % w
                   IN <<Cell(w, r, c), Cell(w, r + 1, c)>>]
UpRightE(h, w) == [k \in 1..((h - 1) * (w - 1)) |->
                   LET r == (k - 1) \div (w - 1)
                       c == (k - 1) % (w - 1)
                   IN <<Cell(w, r + 1, c), Cell(w, r, c + 1)>>]
DownRightE(h, w) == [k \in 1..((h - 1) * (w - 1)) |->
                   LET r == (k - 1) \div (w - 1)
                       c == (k - 1) % (w - 1)
                   IN <<Cell(w, r, c), Cell(w, r + 1, c + 1)>>]
GridLists(h, w, nb) == IF nb = 4 THEN <<RightE(h, w), DownE(h, w)>>
                       ELSE <<RightE(h, w), DownE(h, w), UpRightE(h, w), DownRightE(h, w)>>
GridEdges(h, w, nb) == FlattenSeq(GridLists(h, w, nb))
OneHot(n, k) == [i \in 1..n |-> B2N(i = k)]
DirFeatures(h, w, nb) ==
    LET ls == GridLists(h, w, nb)
        nd == Len(ls)
    IN FlattenSeq([d \in 1..nd |-> [i \in 1..Len(ls[d]) |-> OneHot(nd, d)]])

NNodes(m, x) == CASE IsGrid(m)  -> x.shape[1] * x.shape[2]
                  [] m.kind = "typed" -> Sum([t \in DOMAIN x.tn |-> x.tn[t]])
                  [] m.kind = "multilabel" -> m.L
                  [] m.kind \in {"multiclass", "binary"} -> 1
                  [] OTHER -> x.n

Edges(m, x) == CASE IsGrid(m) -> GridEdges(x.shape[1], x.shape[2], m.nb)
                 [] m.kind = "chain" -> [i \in 1..(x.n - 1) |-> <<i - 1, i>>]
                 [] m.kind = "multilabel" -> m.edges
                 [] m.kind \in {"multiclass", "binary"} -> <<>>
                 [] OTHER -> x.edges

EdgeFeat(m, x) == IF m.kind \in {"dgrid", "ldgrid"}
                  THEN DirFeatures(x.shape[1], x.shape[2], m.nb) ELSE x.ef

NVis(m, x) == IF IsLN(m) THEN x.nv ELSE NNodes(m, x)

\* typed graphs: node k (1-based, global) has type TypeOf; blocks of edges
TOff(x, t)    == Sum([u \in 1..(t - 1) |-> x.tn[u]])       \* nodes before type t
SOff(m, t)    == Sum([u \in 1..(t - 1) |-> m.tS[u]])       \* labels before type t
TypeOf(m, x, k) == CHOOSE t \in 1..m.T : TOff(x, t) < k /\ k <= TOff(x, t) + x.tn[t]
BlockT1(m, b) == ((b - 1) \div m.T) + 1
BlockT2(m, b) == ((b - 1) % m.T) + 1
BlockSize(m, b) == m.tFE[b] * m.tS[BlockT1(m, b)] * m.tS[BlockT2(m, b)]

------------------------------------------------------------- \* labels
\* labels of a typed graph, per type and starting at 0, and back
PerType(m, x, y) == [t \in 1..m.T |-> [k \in 1..x.tn[t] |-> y[TOff(x, t) + k] - SOff(m, t)]]
FlatLabels(m, ls) == FlattenSeq([t \in 1..m.T |-> [k \in DOMAIN ls[t] |-> ls[t][k] + SOff(m, t)]])

Dom(m, x) == CASE m.kind = "binary" -> << {-1, 1} >>
               [] m.kind = "typed"  -> [k \in 1..NNodes(m, x) |->
                      LET t == TypeOf(m, x, k)
                      IN SOff(m, t) .. (SOff(m, t) + m.tS[t] - 1)]
               [] IsLN(m) -> [k \in 1..NNodes(m, x) |->
                      IF k <= x.nv THEN 0..(m.L - 1) ELSE m.L..(m.S - 1)]
               [] OTHER -> [k \in 1..NNodes(m, x) |-> 0..(m.S - 1)]
Legal(m, x, y) == LET d == Dom(m, x)
                  IN Len(y) = Len(d) /\ \A k \in 1..Len(d) : y[k] \in d[k]

CumStates(m, l) == Sum([i \in 1..l |-> m.spl[i]])          \* states of labels < l
LabOf(m, s) == CHOOSE l \in 0..(m.L - 1) : CumStates(m, l) <= s /\ s < CumStates(m, l + 1)
Visible(m, x, h) == CASE IsLG(m) -> [k \in DOMAIN h |-> LabOf(m, h[k])]
                      [] IsLN(m) -> SubSeq(h, 1, x.nv)
                      [] OTHER   -> h
\* the latent labelings that agree with visible labels y
ConsistentDom(m, x, y) == CASE IsLG(m) -> [k \in 1..NNodes(m, x) |->
                                   CumStates(m, y[k]) .. (CumStates(m, y[k] + 1) - 1)]
                            [] IsLN(m) -> [k \in 1..NNodes(m, x) |->
                                   IF k <= x.nv THEN {y[k]} ELSE m.L..(m.S - 1)]

CW(m, lab)      == m.cw[lab + 1]
VLoss(m, v, vh) == IF m.kind = "binary" THEN m.cw[1] * B2N(v[1] # vh[1])
                   ELSE Sum([k \in DOMAIN v |-> CW(m, v[k]) * B2N(v[k] # vh[k])])
Loss(m, x, y, yh) == VLoss(m, Visible(m, x, y), Visible(m, x, yh))
MaxLossV(m, v)  == IF m.kind = "binary" THEN m.cw[1] ELSE Sum([k \in DOMAIN v |-> CW(m, v[k])])

------------------------------------------------------------- \* joint feature
\* All joint features are m.ps times the documented ones.
UnaryJF(nin, F, feat, y) ==
    FlattenSeq([s1 \in 1..nin |-> [f \in 1..F |->
        Sum([k \in 1..Len(feat) |-> feat[k][f] * B2N(y[k] = s1 - 1)])]])
Cnt(es, y, a, b) == Cardinality({e \in 1..Len(es) : y[es[e][1] + 1] = a /\ y[es[e][2] + 1] = b})
DirJF(S, es, y) == FlattenSeq([a \in 1..S |-> [b \in 1..S |-> Cnt(es, y, a - 1, b - 1)]])
SymJF(S, es, y) == FlattenSeq([a \in 1..S |-> [b \in 1..a |->
        Cnt(es, y, a - 1, b - 1) + (IF a = b THEN 0 ELSE Cnt(es, y, b - 1, a - 1))]])
EFSum(es, ef, y, k, a, b) ==
    Sum([e \in 1..Len(es) |-> ef[e][k] * B2N(y[es[e][1] + 1] = a /\ y[es[e][2] + 1] = b)])
InSeq(s, v) == \E i \in DOMAIN s : s[i] = v
EfJF(m, es, ef, y) == FlattenSeq([k \in 1..m.FE |-> FlattenSeq([a \in 1..m.S |-> [b \in 1..m.S |->
        LET N(p, q) == EFSum(es, ef, y, k, p, q)
        IN CASE InSeq(m.sym, k - 1)  -> (m.ps * (N(a-1, b-1) + N(b-1, a-1))) \div 2
             [] InSeq(m.anti, k - 1) -> (m.ps * (N(a-1, b-1) - N(b-1, a-1))) \div 2
             [] OTHER -> m.ps * N(a-1, b-1)]])])
MLabJF(es, y) == FlattenSeq([e \in 1..Len(es) |-> FlattenSeq([a \in 1..2 |-> [b \in 1..2 |->
        B2N(y[es[e][1] + 1] = a - 1 /\ y[es[e][2] + 1] = b - 1)]])])
TypedUnaryJF(m, x, y) == FlattenSeq([t \in 1..m.T |-> FlattenSeq([s \in 1..m.tS[t] |-> [f \in 1..m.tF[t] |->
        Sum([k \in 1..x.tn[t] |-> x.tfeat[t][k][f] * B2N(y[TOff(x, t) + k] = SOff(m, t) + s - 1)])]])])
TypedPairJF(m, x, y) == FlattenSeq([bl \in 1..(m.T * m.T) |->
        LET t1 == BlockT1(m, bl)
            t2 == BlockT2(m, bl)
            es == x.tedges[bl]
            ef == x.tef[bl]
        IN FlattenSeq([k \in 1..m.tFE[bl] |-> FlattenSeq([a \in 1..m.tS[t1] |-> [b \in 1..m.tS[t2] |->
             Sum([e \in 1..Len(es) |-> ef[e][k] *
                    B2N(/\ y[TOff(x, t1) + es[e][1] + 1] = SOff(m, t1) + a - 1
                        /\ y[TOff(x, t2) + es[e][2] + 1] = SOff(m, t2) + b - 1)])]])])])

JF(m, x, y) ==
    CASE m.kind = "binary"     -> VScale(y[1], x.feat)                \* ps = 2
      [] m.kind = "multiclass" -> FlattenSeq([s \in 1..m.S |-> VScale(B2N(y[1] = s - 1), x.feat)])
      [] m.kind = "multilabel" -> FlattenSeq([l \in 1..m.L |-> VScale(2 * y[l] - 1, x.feat)])
                                  \o MLabJF(m.edges, y)
      [] m.kind = "typed"      -> TypedUnaryJF(m, x, y) \o TypedPairJF(m, x, y)
      [] OTHER -> LET es == Edges(m, x)
                  IN VScale(m.ps, UnaryJF(m.nin, m.F, x.feat, y)) \o
                     (CASE m.pair = "sym" -> VScale(m.ps, SymJF(m.S, es, y))
                        [] m.pair = "dir" -> VScale(m.ps, DirJF(m.S, es, y))
                        [] m.pair = "ef"  -> EfJF(m, es, EdgeFeat(m, x), y))
\* class-weight rescaled variant of the multi-class model (weights scaled by D)
JFRescaled(m, x, y, ytrue) == VScale(CW(m, ytrue[1]), JF(m, x, y))

SizeJF(m) ==
    CASE m.kind = "binary"     -> m.F
      [] m.kind = "multiclass" -> m.S * m.F
      [] m.kind = "multilabel" -> m.L * m.F + 4 * Len(m.edges)
      [] m.kind = "typed"      -> Sum([t \in 1..m.T |-> m.tS[t] * m.tF[t]])
                                  + Sum([b \in 1..(m.T * m.T) |-> BlockSize(m, b)])
      [] OTHER -> m.nin * m.F + (CASE m.pair = "sym" -> (m.S * (m.S + 1)) \div 2
                                   [] m.pair = "dir" -> m.S * m.S
                                   [] m.pair = "ef"  -> m.FE * m.S * m.S)

------------------------------------------------------------- \* relaxed labelings
\* mu: node -> state -> K * marginal, nu: edge -> pair (a*S+b) -> K * marginal
UnaryJFRel(nin, F, feat, mu) ==
    FlattenSeq([s \in 1..nin |-> [f \in 1..F |-> Sum([k \in 1..Len(feat) |-> feat[k][f] * mu[k][s]])]])
NuSum(S, nu, a, b) == Sum([e \in 1..Len(nu) |-> nu[e][(a - 1) * S + b]])
NuEF(S, nu, ef, k, a, b) == Sum([e \in 1..Len(nu) |-> ef[e][k] * nu[e][(a - 1) * S + b]])
JFRel(m, x, mu, nu) ==
    CASE m.kind = "multilabel" ->
            FlattenSeq([l \in 1..m.L |-> VScale(mu[l][2] - mu[l][1], x.feat)]) \o FlattenSeq(nu)
      [] m.kind = "typed" ->
            FlattenSeq([t \in 1..m.T |-> FlattenSeq([s \in 1..m.tS[t] |-> [f \in 1..m.tF[t] |->
                Sum([k \in 1..x.tn[t] |-> x.tfeat[t][k][f] * mu[t][k][s]])]])])
            \o FlattenSeq([bl \in 1..(m.T * m.T) |->
                 LET S2 == m.tS[BlockT2(m, bl)]
                 IN FlattenSeq([k \in 1..m.tFE[bl] |->
                      FlattenSeq([a \in 1..m.tS[BlockT1(m, bl)] |-> [b \in 1..S2 |->
                         Sum([e \in 1..Len(x.tedges[bl]) |->
                                x.tef[bl][e][k] * nu[bl][e][(a - 1) * S2 + b]])]])])])
      [] OTHER ->
            VScale(m.ps, UnaryJFRel(m.nin, m.F, x.feat, mu)) \o
            (CASE m.pair = "sym" -> FlattenSeq([a \in 1..m.S |-> [b \in 1..a |->
                        m.ps * (NuSum(m.S, nu, a, b) + (IF a = b THEN 0 ELSE NuSum(m.S, nu, b, a)))]])
               [] m.pair = "dir" -> FlattenSeq([a \in 1..m.S |-> [b \in 1..m.S |->
                        m.ps * NuSum(m.S, nu, a, b)]])
               [] m.pair = "ef" -> FlattenSeq([k \in 1..m.FE |-> FlattenSeq([a \in 1..m.S |-> [b \in 1..m.S |->
                      LET N(p, q) == NuEF(m.S, nu, EdgeFeat(m, x), k, p, q)
                      IN CASE InSeq(m.sym, k - 1)  -> (m.ps * (N(a, b) + N(b, a))) \div 2
                           [] InSeq(m.anti, k - 1) -> (m.ps * (N(a, b) - N(b, a))) \div 2
                           [] OTHER -> m.ps * N(a, b)]])]))
\* K * loss of marginals mu towards the labeling y
LossRel(m, x, y, mu, K) ==
    CASE m.kind = "typed" ->
            Sum([t \in 1..m.T |-> Sum([k \in 1..x.tn[t] |->
                LET lab == y[TOff(x, t) + k]
                IN CW(m, lab) * (K - mu[t][k][lab - SOff(m, t) + 1])])])
      [] IsLG(m) -> Sum([k \in DOMAIN y |->
                LET l == LabOf(m, y[k])
                IN CW(m, l) * (K - Sum([s \in (CumStates(m, l) + 1)..CumStates(m, l + 1) |-> mu[k][s]]))])
      [] IsLN(m) -> Sum([k \in 1..x.nv |-> CW(m, y[k]) * (K - mu[k][y[k] + 1])])
      [] OTHER   -> Sum([k \in DOMAIN y |-> CW(m, y[k]) * (K - mu[k][y[k] + 1])])
\* the indicator of a labeling
IndMu(m, x, y, K) == IF m.kind = "typed"
    THEN [t \in 1..m.T |-> [k \in 1..x.tn[t] |-> [s \in 1..m.tS[t] |->
              K * B2N(y[TOff(x, t) + k] = SOff(m, t) + s - 1)]]]
    ELSE [k \in DOMAIN y |-> [s \in 1..m.S |-> K * B2N(y[k] = s - 1)]]
IndNu(m, x, y, K) == IF m.kind = "typed"
    THEN [bl \in 1..(m.T * m.T) |->
            LET t1 == BlockT1(m, bl)
                t2 == BlockT2(m, bl)
            IN [e \in 1..Len(x.tedges[bl]) |-> FlattenSeq([a \in 1..m.tS[t1] |-> [b \in 1..m.tS[t2] |->
                 K * B2N(/\ y[TOff(x, t1) + x.tedges[bl][e][1] + 1] = SOff(m, t1) + a - 1
                         /\ y[TOff(x, t2) + x.tedges[bl][e][2] + 1] = SOff(m, t2) + b - 1)]])]]
    ELSE LET es == Edges(m, x)
         IN [e \in 1..Len(es) |-> FlattenSeq([a \in 1..m.S |-> [b \in 1..m.S |->
                 K * B2N(y[es[e][1] + 1] = a - 1 /\ y[es[e][2] + 1] = b - 1)]])]

------------------------------------------------------------- \* potentials
\* A pairwise energy: p.dom, p.u[node][state], p.es, p.pw[edge][<<a, b>>];
\* potentials are m.ps times those of the documentation (and scaled by D
\* like the weights).
Pot(m, x, w) ==
    LET n   == NNodes(m, x)
        dom == TLCEval(Dom(m, x))
    IN CASE m.kind = "binary" ->
              [dom |-> dom, u |-> << [s \in {-1, 1} |-> s * Dot(w, x.feat)] >>, es |-> <<>>, pw |-> <<>>]
         [] m.kind = "multiclass" ->
              [dom |-> dom, es |-> <<>>, pw |-> <<>>,
               u |-> << TLCEval([s \in 0..(m.S - 1) |->
                          Sum([f \in 1..m.F |-> w[s * m.F + f] * x.feat[f]])]) >>]
         [] m.kind = "multilabel" ->
              [dom |-> dom, es |-> m.edges,
               u |-> TLCEval([l \in 1..m.L |-> [s \in {0, 1} |->
                        (2 * s - 1) * Sum([f \in 1..m.F |-> w[(l - 1) * m.F + f] * x.feat[f]])]]),
               pw |-> TLCEval([e \in 1..Len(m.edges) |-> [ab \in {0, 1} \X {0, 1} |->
                        w[m.L * m.F + 4 * (e - 1) + 2 * ab[1] + ab[2] + 1]]])]
         [] m.kind = "typed" ->
              LET UO(t) == Sum([v \in 1..(t - 1) |-> m.tS[v] * m.tF[v]])
                  PO(b) == UO(m.T + 1) + Sum([v \in 1..(b - 1) |-> BlockSize(m, v)])
                  ebl   == FlattenSeq([b \in 1..(m.T * m.T) |-> [e \in 1..Len(x.tedges[b]) |-> <<b, e>>]])
              IN [dom |-> dom,
                  u |-> TLCEval([k \in 1..n |->
                     LET t == TypeOf(m, x, k)
                     IN [s \in dom[k] |-> Sum([f \in 1..m.tF[t] |->
                          w[UO(t) + (s - SOff(m, t)) * m.tF[t] + f] * x.tfeat[t][k - TOff(x, t)][f]])]]),
                  es |-> [i \in 1..Len(ebl) |->
                     LET b == ebl[i][1]
                         e == x.tedges[b][ebl[i][2]]
                     IN <<TOff(x, BlockT1(m, b)) + e[1], TOff(x, BlockT2(m, b)) + e[2]>>],
                  pw |-> TLCEval([i \in 1..Len(ebl) |->
                     LET b  == ebl[i][1]
                         t1 == BlockT1(m, b)
                         t2 == BlockT2(m, b)
                         f  == x.tef[b][ebl[i][2]]
                     IN [ab \in (SOff(m, t1)..(SOff(m, t1 + 1) - 1)) \X (SOff(m, t2)..(SOff(m, t2 + 1) - 1)) |->
                          Sum([k \in 1..m.tFE[b] |->
                             f[k] * w[PO(b) + (k - 1) * m.tS[t1] * m.tS[t2]
                                      + (ab[1] - SOff(m, t1)) * m.tS[t2] + (ab[2] - SOff(m, t2)) + 1]])]])]
         [] OTHER ->
              LET es == TLCEval(Edges(m, x))
                  ef == IF m.pair = "ef" THEN TLCEval(EdgeFeat(m, x)) ELSE <<>>
                  o  == m.nin * m.F
                  Tri(a, b) == IF a >= b THEN (a * (a + 1)) \div 2 + b ELSE (b * (b + 1)) \div 2 + a
                  all == 0..(m.S - 1)
                  one == TLCEval([ab \in all \X all |->
                           CASE m.pair = "sym" -> m.ps * w[o + Tri(ab[1], ab[2]) + 1]
                             [] m.pair = "dir" -> m.ps * w[o + ab[1] * m.S + ab[2] + 1]
                             [] OTHER -> 0])
              IN [dom |-> dom, es |-> es,
                  u |-> TLCEval([k \in 1..n |-> [s \in dom[k] |->
                          IF s < m.nin /\ k <= Len(x.feat)
                          THEN m.ps * Sum([f \in 1..m.F |-> w[s * m.F + f] * x.feat[k][f]]) ELSE 0]]),
                  pw |-> IF m.pair # "ef" THEN [e \in 1..Len(es) |-> one]
                         ELSE TLCEval([e \in 1..Len(es) |-> [ab \in all \X all |->
                                 m.ps * Sum([k \in 1..m.FE |->
                                    ef[e][k] * w[o + (k - 1) * m.S * m.S + ab[1] * m.S + ab[2] + 1]])]])]

PScore(p, y) == Sum([k \in DOMAIN p.u |-> p.u[k][y[k]]])
                + Sum([e \in DOMAIN p.es |-> p.pw[e][<<y[p.es[e][1] + 1], y[p.es[e][2] + 1]>>]])
PMaxOver(p, dom) == Max({PScore(p, y) : y \in Labelings(dom)})
PMax(p)      == PMaxOver(p, p.dom)
IsMAP(p, y)  == PScore(p, y) = PMax(p)
Score(m, x, w, y) == PScore(Pot(m, x, w), y)
\* score plus loss towards ytrue (m.ps scaled)
AugScore(m, x, p, ytrue, y) == PScore(p, y) + m.ps * Loss(m, x, ytrue, y)
AugMax(m, x, p, ytrue) == Max({AugScore(m, x, p, ytrue, y) : y \in Labelings(p.dom)})
------------------------------------------------------------- \* maxima by elimination
\* The same maxima without enumerating the labelings: nodes are summed out in a
\* given order (any order is correct; the cost is in the size of the tables).
\* A table maps the assignments of a set of nodes to <<best score, number of
\* assignments of the eliminated nodes attaining it (2 stands for more)>>.
Combine(P)  == FoldFunction(LAMBDA a, b : <<a[1] + b[1], Min2(2, a[2] * b[2])>>, <<0, 1>>, P)
Assigns(dom, sc) == FoldSet(LAMBDA k, acc : {(k :> s) @@ f : s \in dom[k], f \in acc}, {<<>>}, sc)
BestOf(A, val(_)) ==
    LET mx == Max({val(s)[1] : s \in A})
        T  == {s \in A : val(s)[1] = mx}
        ct == SumFunction([s \in T |-> val(s)[2]])
    IN <<mx, Min2(2, ct)>>
Tables(p, dom) ==
    [k \in 1..Len(p.u) |-> [sc |-> {k}, tab |-> TLCEval([f \in Assigns(dom, {k}) |-> <<p.u[k][f[k]], 1>>])]] \o
    [e \in 1..Len(p.es) |->
        LET a == p.es[e][1] + 1
            b == p.es[e][2] + 1
        IN [sc |-> {a, b}, tab |-> TLCEval([f \in Assigns(dom, {a, b}) |-> <<p.pw[e][<<f[a], f[b]>>], 1>>])]]
SumOut(dom, ts, k) ==
    LET hit  == SelectSeq(ts, LAMBDA t : k \in t.sc)
        rest == SelectSeq(ts, LAMBDA t : k \notin t.sc)
        sc   == TLCEval(UNION {hit[i].sc : i \in DOMAIN hit} \ {k})
        Val(f, s) == LET g == (k :> s) @@ f
                     IN Combine([i \in DOMAIN hit |-> hit[i].tab[Restrict(g, hit[i].sc)]])
    IN Append(rest, [sc |-> sc, tab |-> TLCEval([f \in Assigns(dom, sc) |-> BestOf(dom[k], LAMBDA s : Val(f, s))])])
EMaxOver(p, dom, order) ==
    LET end == FoldLeft(LAMBDA ts, k : SumOut(dom, ts, k), Tables(p, dom), order)
    IN Combine([i \in DOMAIN end |-> end[i].tab[<<>>]])
\* the potentials of the loss augmented energy
AugPot(m, x, p, ytrue) ==
    LET v == Visible(m, x, ytrue)
        Lab(s) == IF IsLG(m) THEN LabOf(m, s) ELSE s
    IN [p EXCEPT !.u = [k \in DOMAIN p.u |-> [s \in DOMAIN p.u[k] |-> p.u[k][s]
            + (IF k > Len(v) THEN 0
               ELSE m.ps * (IF m.kind = "binary" THEN m.cw[1] ELSE CW(m, v[k])) * B2N(v[k] # Lab(s)))]]]
=============================================================================
