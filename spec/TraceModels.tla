----------------------------- MODULE TraceModels -----------------------------
(* Decides recorded calls of the real models.  A trace is a sequence of     *)
(* calls; each event carries the model, the instance, the arguments and the *)
(* result, and Clauses(e) is the set of obligations of the specification    *)
(* the result breaks (empty for a step the specification allows).           *)
EXTENDS Models, Logic, Json, IOUtils, MsgStep

Traces == ndJsonDeserialize(IOEnv.TRACE)

Need(name, ok) == IF ok THEN {} ELSE {name}
K4 == 10000                                  \* scale of recorded marginals

------------------------------------------------------------- \* C01
JfClauses(e) ==
    LET sz == SizeJF(e.m)
    IN Need("size", e.size = sz /\ Len(e.jf) = sz)
       \cup Need("value", e.jf = JF(e.m, e.x, e.y))
JfrClauses(e) == Need("value", e.jf = JFRescaled(e.m, e.x, e.y, e.ytrue))
\* w . joint_feature and the energy of the potentials (both D * ps scaled)
ScoreClauses(e) == LET s == Score(e.m, e.x, e.w, e.y)
                   IN Need("score", e.dot = s) \cup Need("potentials", e.pot = s)
BjfClauses(e) == Need("batch-sum",
                    e.jf = VSum([i \in DOMAIN e.xs |-> JF(e.m, e.xs[i], e.ys[i])], VZero(SizeJF(e.m))))
BjfrClauses(e) == Need("batch-sum",
                    e.jf = VSum([i \in DOMAIN e.xs |-> JFRescaled(e.m, e.xs[i], e.ys[i], e.yts[i])],
                                VZero(SizeJF(e.m))))
\* minus the energy an exact solver reports is the maximal score
\* the maximum and the number of labelings that attain it (2 stands for more);
\* large instances come with an order in which to eliminate the nodes
Top(e, p, dom) ==
    IF "order" \in DOMAIN e
    THEN IF ToSet(e.order) = DOMAIN p.u /\ Len(e.order) = Len(p.u) THEN EMaxOver(p, dom, e.order)
         ELSE Assert(FALSE, "not an elimination order")
    ELSE LET sc == TLCEval([y \in Labelings(dom) |-> PScore(p, y)])
             mx == Max({sc[y] : y \in DOMAIN sc})
         IN <<mx, Min2(2, Cardinality({y \in DOMAIN sc : sc[y] = mx}))>>
EnergyClauses(e) == LET p == Pot(e.m, e.x, e.w)
                    IN Need("energy", Near(e.val, e.K * Top(e, p, p.dom)[1], e.tol))
\* a labeling the learner's difference vector is made of
DjfClauses(e) == Need("difference", e.djf = VSub(JF(e.m, e.x, e.y), JF(e.m, e.x, e.yh)))

------------------------------------------------------------- \* C02
JfrelClauses(e)   == Need("linear-extension", e.jf = JFRel(e.m, e.x, e.mu, e.nu))
\* the marginals are the indicator of y
IndClauses(e)     == Need("indicator-marginals", e.mu = IndMu(e.m, e.x, e.y, 1) /\ e.nu = IndNu(e.m, e.x, e.y, 1))
                     \cup Need("agrees-with-labeling", e.jf = JF(e.m, e.x, e.y))
LossrelClauses(e) == Need("linear-loss", e.val = LossRel(e.m, e.x, e.y, e.mu, e.K))
LossindClauses(e) == Need("loss-of-indicator", e.val = Loss(e.m, e.x, e.y, e.yh))

------------------------------------------------------------- \* C03
\* exact = "always": the score s is the maximum; "unique": it has to be when only
\* one labeling attains the maximum (relaxations on forests)
\* AD3 gives up after a number of iterations; it then says so; it also says when
\* its solution is integral, which makes it one of the optima
Integral(e) == IF "status" \in DOMAIN e THEN e.status = "integral" ELSE FALSE
Settled(e) == "status" \in DOMAIN e => e.status # "unsolved"
Decided(e, p, dom, exact, s) ==
    ~Settled(e) \/
    LET t == Top(e, p, dom) IN s = t[1] \/ (exact = "unique" /\ t[2] > 1 /\ ~Integral(e))
InfClauses(e) ==
    LET lg == Legal(e.m, e.x, e.y)
    IN Need("legal", lg) \cup
       (IF lg THEN LET p == Pot(e.m, e.x, e.w) IN Need("maximal", Decided(e, p, p.dom, e.exact, PScore(p, e.y)))
        ELSE {})
\* raw potentials handed to an inference method: e.u node -> state, e.pw edge -> a*S+b
RawPot(e) == [dom |-> [k \in DOMAIN e.u |-> 0..(Len(e.u[k]) - 1)],
              u   |-> [k \in DOMAIN e.u |-> [s \in 0..(Len(e.u[k]) - 1) |-> e.u[k][s + 1]]],
              es  |-> e.edges,
              pw  |-> [i \in DOMAIN e.edges |->
                        LET S == Len(e.u[1])
                        IN [ab \in (0..(S - 1)) \X (0..(S - 1)) |-> e.pw[i][ab[1] * S + ab[2] + 1]]]]
RawLegal(e) == Len(e.y) = Len(e.u) /\ \A k \in DOMAIN e.u : e.y[k] \in 0..(Len(e.u[k]) - 1)
RawClauses(e) == Need("legal", RawLegal(e)) \cup
                 (IF RawLegal(e) /\ e.exact
                  THEN LET p == RawPot(e) IN Need("maximal", PScore(p, e.y) = Top(e, p, p.dom)[1]) ELSE {})
RawuClauses(e) == Need("legal", RawLegal(e)) \cup
                 (IF RawLegal(e)
                  THEN LET p == RawPot(e) IN Need("maximal", Decided(e, p, p.dom, "unique", PScore(p, e.y))) ELSE {})
\* k sweeps of message passing on a graph with cycles: every node takes a best label of what
\* it received (damped: everything scaled by 2 per update)
SweepsClauses(e) ==
    LET S   == Len(e.u[1])
        sc  == IF e.half THEN 2 ^ (2 * e.k * Len(e.edges)) ELSE 1
        U(v, a) == sc * e.u[v + 1][a + 1]
        inc == Received(Len(e.u), S, e.edges, U,
                        LAMBDA i, a, b : sc * e.pw[i][a * S + b + 1], e.k, e.half)
    IN Need("legal", RawLegal(e)) \cup
       (IF RawLegal(e)
        THEN Need("beliefs", \A v \in 0..(Len(e.u) - 1) : \A a \in 0..(S - 1) :
                  inc[v][a] + U(v, a) <= inc[v][e.y[v + 1]] + U(v, e.y[v + 1])) ELSE {})
\* compute_energy: the score of a labeling under raw potentials
CeClauses(e)  == Need("energy-of-labeling", e.val = PScore(RawPot(e), e.y))

------------------------------------------------------------- \* C04
\* one legal state per node
LegalClauses(e) == Need("legal", Legal(e.m, e.x, e.y))
RowOK(r, tol)   == (\A s \in DOMAIN r : r[s] >= 0 - tol) /\ Near(Sum(r), K4, Len(r) * tol)
\* edge marginals sum to the node marginals at both ends
EdgeOK(S1, S2, nu, mu1, mu2, tol) ==
    /\ Len(nu) = S1 * S2
    /\ \A i \in DOMAIN nu : nu[i] >= 0 - tol
    /\ \A a \in 1..S1 : Near(Sum([b \in 1..S2 |-> nu[(a - 1) * S2 + b]]), mu1[a], S2 * tol)
    /\ \A b \in 1..S2 : Near(Sum([a \in 1..S1 |-> nu[(a - 1) * S2 + b]]), mu2[b], S1 * tol)
\* score (scaled by K4 * the potential scale) of marginals
RelScore(p, mu, nu) ==
    LET S == Len(mu[1])
    IN Sum([k \in DOMAIN mu |-> Sum([s \in 1..S |-> mu[k][s] * p.u[k][s - 1]])])
       + Sum([i \in DOMAIN nu |-> Sum([q \in 1..(S * S) |-> nu[i][q] * p.pw[i][<<(q - 1) \div S, (q - 1) % S>>]])])
PAbs(p) == 1 + Sum([k \in DOMAIN p.u |-> Max({Abs(p.u[k][s]) : s \in DOMAIN p.u[k]})])
             + Sum([i \in DOMAIN p.pw |-> Max({Abs(p.pw[i][ab]) : ab \in DOMAIN p.pw[i]})])
\* a relaxed result on raw potentials; e.opt: the relaxed optimum was reached
RelClauses(e) ==
    LET p  == RawPot(e)
        S  == Len(e.u[1])
        sh == Len(e.mu) = Len(e.u) /\ (\A k \in DOMAIN e.mu : Len(e.mu[k]) = S)
              /\ Len(e.nu) = Len(e.edges) /\ (\A i \in DOMAIN e.nu : Len(e.nu[i]) = S * S)
    IN Need("shape", sh) \cup
       (IF ~ sh THEN {} ELSE
          Need("node-simplex", \A k \in DOMAIN e.mu : RowOK(e.mu[k], e.tol))
          \cup Need("edge-consistent", ~Settled(e) \/ \A i \in DOMAIN e.edges :
                 EdgeOK(S, S, e.nu[i], e.mu[e.edges[i][1] + 1], e.mu[e.edges[i][2] + 1], e.tol))
          \cup (IF e.opt /\ Settled(e) THEN Need("beats-labelings",
                    RelScore(p, e.mu, e.nu) >= K4 * Top(e, p, p.dom)[1] - 4 * e.tol * PAbs(p)) ELSE {})
          \cup (IF e.hasen /\ Settled(e) THEN Need("reported-energy",
                    Near(0 - e.energy, RelScore(p, e.mu, e.nu), 4 * e.tol * PAbs(p))) ELSE {}))
\* a relaxed result of a model
RelmClauses(e) ==
    LET p == Pot(e.m, e.x, e.w)
        ty == e.m.kind = "typed"
        \* flat views: node k of the instance, edge i of p.es
        mus == IF ty THEN FlattenSeq(e.mu) ELSE e.mu
        nus == IF ty THEN FlattenSeq(e.nu) ELSE e.nu
        Lo(k) == Min(p.dom[k])
        All(k) == IF IsLN(e.m) THEN 0..(e.m.S - 1) ELSE p.dom[k]
        Base(k) == Min(All(k))
        NS(k) == Cardinality(All(k))
        sh == /\ Len(mus) = Len(p.dom) /\ \A k \in DOMAIN mus : Len(mus[k]) = NS(k)
              /\ Len(nus) = Len(p.es)
              /\ \A i \in DOMAIN nus : Len(nus[i]) = NS(p.es[i][1] + 1) * NS(p.es[i][2] + 1)
        U(k, s) == IF s \in p.dom[k] THEN p.u[k][s] ELSE 0
        rs == Sum([k \in DOMAIN mus |-> Sum([s \in 1..NS(k) |-> mus[k][s] * U(k, Base(k) + s - 1)])])
              + Sum([i \in DOMAIN nus |->
                    LET k1 == p.es[i][1] + 1
                        k2 == p.es[i][2] + 1
                    IN Sum([q \in 1..(NS(k1) * NS(k2)) |->
                          nus[i][q] * p.pw[i][<<Base(k1) + ((q - 1) \div NS(k2)), Base(k2) + ((q - 1) % NS(k2))>>]])])
    IN Need("shape", sh) \cup
       (IF ~ sh THEN {} ELSE
          Need("node-simplex", \A k \in DOMAIN mus : RowOK(mus[k], e.tol))
          \cup Need("edge-consistent", ~Settled(e) \/ \A i \in DOMAIN p.es :
                 EdgeOK(NS(p.es[i][1] + 1), NS(p.es[i][2] + 1), nus[i],
                        mus[p.es[i][1] + 1], mus[p.es[i][2] + 1], e.tol))
          \cup (IF IsLN(e.m) \/ ~Settled(e) THEN {} ELSE
                  Need("beats-labelings", rs >= K4 * Top(e, p, p.dom)[1] - 4 * e.tol * PAbs(p))
                  \cup Need("reported-energy", Near(0 - e.energy, rs, 4 * e.tol * PAbs(p)))))
\* a labeling with a reported energy: between minus the relaxed optimum and
\* minus the score of the best labeling; e.tight: equal to minus the score
LabEnClauses(e) ==
    LET p == RawPot(e)
    IN Need("legal", RawLegal(e)) \cup
       (IF ~ RawLegal(e) \/ ~Settled(e) THEN {} ELSE
          Need("energy-bounds", 0 - e.energy >= K4 * Top(e, p, p.dom)[1] - 4 * e.tol * PAbs(p))
          \cup (IF e.tight THEN Need("reported-energy",
                   Near(0 - e.energy, K4 * PScore(p, e.y), 4 * e.tol * PAbs(p))) ELSE {}))

------------------------------------------------------------- \* C05
LossClauses(e) ==
    LET l == Loss(e.m, e.x, e.y, e.yh)
    IN Need("loss", e.val = l)
       \cup Need("nonnegative", e.val >= 0)
       \cup Need("zero-when-equal", (Visible(e.m, e.x, e.y) = Visible(e.m, e.x, e.yh)) => e.val = 0)
       \cup Need("bounded", e.val <= e.maxval)
       \cup Need("max-loss", e.maxval = MaxLossV(e.m, Visible(e.m, e.x, e.y)))
VlossClauses(e) == Need("loss", e.val = VLoss(e.m, e.v, e.vh))
BlossClauses(e) == Need("batch-loss", e.vals = [i \in DOMAIN e.ys |-> Loss(e.m, e.xs[i], e.ys[i], e.yhs[i])])

------------------------------------------------------------- \* C06
AugObj(m, x, p, yt, y) == IF m.rescale THEN PScore(p, y) + m.D * B2N(y # yt) ELSE AugScore(m, x, p, yt, y)
AugClauses(e) ==
    LET lg == Legal(e.m, e.x, e.yh)
    IN Need("legal", lg) \cup
       (IF ~ lg THEN {} ELSE
          LET p == Pot(e.m, e.x, e.w)
          IN IF e.m.rescale
             THEN LET ys == Labelings(p.dom)
                      mx == Max({AugObj(e.m, e.x, p, e.y, z) : z \in ys})
                  IN Need("maximal", AugObj(e.m, e.x, p, e.y, e.yh) = mx)
             ELSE LET q == TLCEval(AugPot(e.m, e.x, p, e.y))
                  IN Need("maximal", Decided(e, q, q.dom, e.exact, PScore(q, e.yh))))
\* the value of the loss augmented optimum an exact solver reports
AugenClauses(e) ==
    LET p == Pot(e.m, e.x, e.w)
        q == AugPot(e.m, e.x, p, e.y)
    IN Need("augmented-energy", Near(e.val, e.K * Top(e, q, q.dom)[1], e.tol))

------------------------------------------------------------- \* C08
LatClauses(e) ==
    LET lg == Legal(e.m, e.x, e.h)
    IN Need("legal", lg) \cup
       (IF ~ lg THEN {} ELSE
          Need("keeps-labels", Visible(e.m, e.x, e.h) = e.y)
          \cup (IF e.exact /\ Settled(e)
                THEN LET p == Pot(e.m, e.x, e.w)
                     IN Need("maximal", PScore(p, e.h) = Top(e, p, ConsistentDom(e.m, e.x, e.y))[1])
                ELSE {}))
InitLatClauses(e) ==
    LET lg == Legal(e.m, e.x, e.h)
    IN Need("legal", lg) \cup (IF lg THEN Need("keeps-labels", Visible(e.m, e.x, e.h) = e.y) ELSE {})
L2VClauses(e) == Need("label-from-latent", e.v = Visible(e.m, e.x, e.h))

------------------------------------------------------------- \* C18
\* flat labels, labels per type, and the flat labels of those
TypedLabClauses(e) == Need("per-type-labels", e.ls = PerType(e.m, e.x, e.y))
                      \cup Need("round-trip", e.back = FlatLabels(e.m, e.ls) /\ e.back = e.y)
\* a model with one node type and its single-type twin
TwinClauses(e) == Need("same-joint-feature", e.jf = e.jf2 /\ e.jf = JF(e.m, e.x, e.y))
                  \cup Need("same-loss", e.loss = e.loss2 /\ e.loss = Loss(e.m, e.x, e.yt, e.y))
                  \cup Need("same-max-loss", e.maxl = e.maxl2)

------------------------------------------------------------- \* C19
\* y is the result of inference under constraints; if no labeling satisfies
\* them there is no obligation
ConClauses(e) ==
    LET lg == Legal(e.m, e.x, e.y)
        p  == Pot(e.m, e.x, e.w)
        ok == {z \in Labelings(p.dom) : SatisfiesAll(z, e.cons)}
    IN Need("legal", lg) \cup
       (IF ~ lg \/ ok = {} THEN {} ELSE
          Need("constraints-satisfied", SatisfiesAll(e.y, e.cons))
          \cup Need("best-satisfying", SatisfiesAll(e.y, e.cons)
                      => PScore(p, e.y) = Max({PScore(p, z) : z \in ok})))
\* a fractional result under constraints bounds the best satisfying labeling
ConRelClauses(e) ==
    LET p  == Pot(e.m, e.x, e.w)
        ok == {z \in Labelings(p.dom) : SatisfiesAll(z, e.cons)}
    IN IF ok = {} THEN {} ELSE
       Need("bounds-satisfying", 0 - e.energy >= K4 * Max({PScore(p, z) : z \in ok}) - 4 * e.tol * PAbs(p))

------------------------------------------------------------- \* C24
\* the edges of a grid as lists (one per direction), as one list, and the
\* direction features of the latter
SameBag(a, b) == Len(a) = Len(b) /\ {a[k] : k \in DOMAIN a} = {b[k] : k \in DOMAIN b}
                 /\ Cardinality({a[k] : k \in DOMAIN a}) = Len(a)
LatticeClauses(e) ==
    LET ls == GridLists(e.h, e.w, e.nb)
        nd == Len(ls)
    IN Need("directions", Len(e.lists) = nd)
       \cup (IF Len(e.lists) # nd THEN {} ELSE
             Need("each-pair-once", \A d \in 1..nd : SameBag(e.lists[d], ls[d]))
             \cup Need("flat-edges", SameBag(e.edges, FlattenSeq(ls)))
             \cup Need("direction-features", /\ Len(e.ef) = Len(e.edges)
                    /\ \A k \in DOMAIN e.ef : \E d \in 1..nd :
                          e.ef[k] = OneHot(nd, d) /\ \E q \in DOMAIN ls[d] : ls[d][q] = e.edges[k]))
\* edge features of arbitrary lists of edges
ListFeatClauses(e) == Need("direction-features",
    e.ef = FlattenSeq([d \in DOMAIN e.sizes |-> [k \in 1..e.sizes[d] |-> OneHot(Len(e.sizes), d)]]))

------------------------------------------------------------- \* generic
\* two computations that have to agree
EqClauses(e)  == Need("equal", e.a = e.b)
NearClauses(e) == Need("near", Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : Near(e.a[i], e.b[i], e.tol))
\* an observation that has to be true / an input that has to be rejected, accepted
FactClauses(e) == Need(e.what, e.ok)

Clauses(e) ==
    CASE e.ev = "jf"      -> JfClauses(e)
      [] e.ev = "jfr"     -> JfrClauses(e)
      [] e.ev = "score"   -> ScoreClauses(e)
      [] e.ev = "bjf"     -> BjfClauses(e)
      [] e.ev = "bjfr"    -> BjfrClauses(e)
      [] e.ev = "energy"  -> EnergyClauses(e)
      [] e.ev = "djf"     -> DjfClauses(e)
      [] e.ev = "jfrel"   -> JfrelClauses(e)
      [] e.ev = "ind"     -> IndClauses(e)
      [] e.ev = "lossrel" -> LossrelClauses(e)
      [] e.ev = "lossind" -> LossindClauses(e)
      [] e.ev = "inf"     -> InfClauses(e)
      [] e.ev = "raw"     -> RawClauses(e)
      [] e.ev = "rawu"    -> RawuClauses(e)
      [] e.ev = "sweeps"  -> SweepsClauses(e)
      [] e.ev = "ce"      -> CeClauses(e)
      [] e.ev = "relm"    -> RelmClauses(e)
      [] e.ev = "legal"   -> LegalClauses(e)
      [] e.ev = "rel"     -> RelClauses(e)
      [] e.ev = "laben"   -> LabEnClauses(e)
      [] e.ev = "loss"    -> LossClauses(e)
      [] e.ev = "vloss"   -> VlossClauses(e)
      [] e.ev = "bloss"   -> BlossClauses(e)
      [] e.ev = "aug"     -> AugClauses(e)
      [] e.ev = "augen"   -> AugenClauses(e)
      [] e.ev = "lat"     -> LatClauses(e)
      [] e.ev = "initlat" -> InitLatClauses(e)
      [] e.ev = "l2v"     -> L2VClauses(e)
      [] e.ev = "typedlab" -> TypedLabClauses(e)
      [] e.ev = "twin"    -> TwinClauses(e)
      [] e.ev = "con"     -> ConClauses(e)
      [] e.ev = "conrel"  -> ConRelClauses(e)
      [] e.ev = "lattice" -> LatticeClauses(e)
      [] e.ev = "listfeat" -> ListFeatClauses(e)
      [] e.ev = "eq"      -> EqClauses(e)
      [] e.ev = "near"    -> NearClauses(e)
      [] e.ev = "fact"    -> FactClauses(e)
      [] e.ev = "exception" -> {"raised"}
      [] OTHER            -> {"unknown-event"}

------------------------------------------------------------- \* the monitor
VARIABLES t, l
Init == t \in DOMAIN Traces /\ l = 0
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET bad == Clauses(Traces[t].evs[l + 1])
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l>>
==============================================================================
