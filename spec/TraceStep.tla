------------------------------ MODULE TraceStep ------------------------------
(* Runs of the learners that move one weight vector step by step: structured  *)
(* perceptron, subgradient (also latent), Frank-Wolfe.  The state holds what   *)
(* the documented algorithm would hold; a recorded step has to continue it     *)
(* (the clauses it breaks are printed) and the state then follows the record.  *)
EXTENDS Learn, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
RTol == 500                                     \* risks and dual values
P(tt) == Traces[tt].prob
N(p)  == Len(p.xs)
Zero(p) == VZero(SizeJF(p.m))

\* ------------------------------------------------------------ tables
TruthVis(p, i) == IF p.latent THEN p.ys[i] ELSE Visible(p.m, p.xs[i], p.ys[i])
LossTo(p, i, y) == VLoss(p.m, TruthVis(p, i), Visible(p.m, p.xs[i], y))
JFY(p, i, y) == JFL(p.m, p.xs[i], y, p.ys[i])
CurTable(p) == [i \in DOMAIN p.xs |->
        [all |-> {[j |-> JFY(p, i, y), l |-> LossTo(p, i, y)] : y \in Labelings(Dom(p.m, p.xs[i]))},
         gt  |-> IF p.latent THEN {JF(p.m, p.xs[i], h) : h \in Labelings(ConsistentDom(p.m, p.xs[i], p.ys[i]))}
                 ELSE {JFY(p, i, p.ys[i])}]]
Sc(p, w, j) == Dot(w, j) \div JFScale(p.m)
GtMax(p, tab, w, i)  == Max({Sc(p, w, j) : j \in tab[i].gt})
AugTop(p, tab, w, i) == Max({(r.l * FX) \div p.m.D + Sc(p, w, r.j) : r \in tab[i].all})
Slack(p, tab, w, i)  == Max2(0, AugTop(p, tab, w, i) - GtMax(p, tab, w, i))
TrueRisk(p, tab, w)  == CMul(p, Sum([i \in DOMAIN tab |-> Slack(p, tab, w, i)])) + Half(FNorm2(w))
AugVal(p, w, i, y)   == (LossTo(p, i, y) * FX) \div p.m.D + Sc(p, w, JFY(p, i, y))

\* ------------------------------------------------------------ perceptron
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
\* the effective learning rate (t + t0)^de, applied to v
LrP(p, ep, v) == IF p.de >= 0 THEN v * Pow(ep + p.t0, p.de) ELSE v \div Pow(ep + p.t0, -p.de)
PercStart(p) == [w |-> Zero(p), w0 |-> Zero(p), j |-> 0, ep |-> 0, loss |-> 0, curve |-> <<>>,
                 asum |-> Zero(p), acnt |-> 0, done |-> FALSE, mask |-> {}]
Averages(p, ep) == p.avg = -1 \/ (p.avg >= 0 /\ ep >= p.avg)
PercPredClauses(p, s, e) ==
    LET ok == e.i \in 1..N(p) /\ Legal(p.m, p.xs[e.i], e.y)
    IN Need("legal-prediction", ok)
       \cup Need("sample-order", e.i = s.j + 1)
       \cup Need("weights", VNear(e.w, IF p.batch THEN s.w0 ELSE s.w, 16))
       \cup Need("stops-without-loss", ~s.done)
       \cup Need("iteration-limit", s.ep < p.maxit)
PercPredPost(p, s, e) ==
    LET first == s.j = 0
        ls == Loss(p.m, p.xs[e.i], p.ys[e.i], e.y)
        base == IF p.batch THEN s.w ELSE e.w
        d  == Delta(p.m, p.xs[e.i], p.ys[e.i], e.y)
        s0 == JFScale(p.m)
        w1 == IF ls = 0 THEN base
              ELSE [q \in DOMAIN base |-> base[q] + LrP(p, s.ep, (FX * d[q]) \div s0)]
        obs == Averages(p, s.ep) /\ (~p.batch \/ s.j + 1 = N(p))
        reset == first /\ p.avg = -1
        as == IF reset THEN Zero(p) ELSE s.asum
        ac == IF reset THEN 0 ELSE s.acnt
        last == s.j + 1 = N(p)
        total == s.loss + ls
    IN [s EXCEPT !.w = w1, !.w0 = IF last THEN w1 ELSE IF first /\ p.batch THEN e.w ELSE s.w0,
                 !.j = IF last THEN 0 ELSE s.j + 1,
                 !.ep = IF last THEN s.ep + 1 ELSE s.ep,
                 !.loss = IF last THEN 0 ELSE total,
                 !.curve = IF last THEN Append(s.curve, total) ELSE s.curve,
                 !.done = last /\ total = 0,
                 !.asum = IF obs THEN VAdd(as, w1) ELSE as,
                 !.acnt = IF obs THEN ac + 1 ELSE ac]
PercEnd(p, s, e) ==
    LET want == IF p.avg < -1 THEN s.w
                ELSE IF s.acnt = 0 THEN Zero(p)     \* nothing was averaged
                ELSE [q \in DOMAIN s.asum |-> s.asum[q] \div s.acnt]
        maxl == Sum([i \in DOMAIN p.xs |-> MaxLossV(p.m, p.ys[i])])
    IN Need("final-weights", VNear(e.w, want, 30))
       \cup Need("whole-epochs", s.j = 0)
       \cup Need("stops-only-without-loss", s.done \/ s.ep = p.maxit)
       \cup Need("loss-curve", /\ Len(e.curve) = Len(s.curve)
                               /\ \A k \in DOMAIN e.curve : Near(e.curve[k] * maxl, s.curve[k] * FX, maxl))
       \cup Need("average-parameter-kept", e.kept)

\* ------------------------------------------------------------ subgradient
\* a multiple a/b of a scaled number (wide: |v| * a may exceed 32 bit)
MulDiv(v, a, b) == a * (v \div b) + (a * (v % b)) \div b
Lr0N(p) == IF p.auto THEN p.CN * N(p) ELSE p.LN
Lr0D(p) == IF p.auto THEN p.CD ELSE p.LD
Lr(p, t, v) == MulDiv(v, Lr0N(p), Lr0D(p) * Pow(t + p.t0, p.de))
SubStart(p) == [cand |-> {[w |-> Zero(p), gold |-> Zero(p), A |-> Zero(p)]}, known |-> ~p.latent,
                t |-> 0, seen |-> {}, ep |-> 0, pos |-> FALSE, zero |-> FALSE, nobj |-> 0, k |-> 0, off |-> 0, osum |-> 0]
\* where the loss-augmented optimum is the true labeling's value, both the difference
\* vector and zero are subgradients: the state is the set of what may be the case
Fits(s, w) == {c \in s.cand : VNear(w, c.w, 40)}
FitsA(s, w) == {c \in s.cand : VNear(w, c.A, 100)}
SubStepClauses(p, s, e) ==
    LET ok == \A q \in DOMAIN e.is : e.is[q] \in 1..N(p) /\ Legal(p.m, p.xs[e.is[q]], e.ys[q])
                                     /\ Legal(p.m, p.xs[e.is[q]], e.hs[q])
    IN Need("legal-answers", ok)
       \cup Need("weights", ~s.known \/ Fits(s, e.w) # {})
       \cup Need("one-weight-vector-per-batch", e.same)
       \cup Need("each-sample-once-per-epoch",
              /\ \A q \in DOMAIN e.is : e.is[q] \notin s.seen
              /\ \A q, r \in DOMAIN e.is : q # r => e.is[q] # e.is[r])
       \cup Need("sample-order", p.shuffle \/ \A q \in DOMAIN e.is : e.is[q] = Cardinality(s.seen) + q)
       \cup Need("iteration-limit", s.ep < p.maxit)
       \cup (IF ~ok THEN {} ELSE
             Need("most-violated", \A q \in DOMAIN e.is :
                    AugVal(p, e.w, e.is[q], e.ys[q]) >= AugTop(p, s.tab, e.w, e.is[q]) - 40)
             \cup Need("truth", \A q \in DOMAIN e.is :
                    IF p.latent
                    THEN /\ Visible(p.m, p.xs[e.is[q]], e.hs[q]) = p.ys[e.is[q]]
                         /\ Sc(p, e.w, JF(p.m, p.xs[e.is[q]], e.hs[q])) >= GtMax(p, s.tab, e.w, e.is[q]) - 40
                    ELSE e.hs[q] = p.ys[e.is[q]]))
DiffOf(p, e, q) == VSub(JFY(p, e.is[q], e.hs[q]), JFY(p, e.is[q], e.ys[q]))
\* value of the answer above the true labeling
Gain(p, e, q) == (LossTo(p, e.is[q], e.ys[q]) * FX) \div p.m.D - Sc(p, e.w, DiffOf(p, e, q))
Ties(p, e) == {q \in DOMAIN e.is : Abs(Gain(p, e, q)) <= 8 /\ MaxAbs(DiffOf(p, e, q)) > 0}
\* descent direction (scale FX): mean difference vector of the group, without those in
\* `out`, minus the regularizer
SubGrad(p, e, out) ==
    LET n == Len(e.is)
        d == VSum([q \in DOMAIN e.is |-> IF q \in out THEN Zero(p) ELSE DiffOf(p, e, q)], Zero(p))
    IN [q \in DOMAIN d |-> (FX * d[q]) \div (JFScale(p.m) * n) - MulDiv(e.w[q], p.CD, p.CN * N(p))]
Mom(p, old, g) == [q \in DOMAIN g |-> MulDiv(g[q], p.MD - p.MN, p.MD) + MulDiv(old[q], p.MN, p.MD)]
\* weight of iterate k (k = 1, 2, ...) in the average so far: k / (1 + .. + k) or k^2 / (1 + .. + k^2)
AvgShare(p, k) == IF p.avg = "linear" THEN (2 * FX) \div (k + 1)
                  ELSE (6 * k * FX) \div ((k + 1) * (2 * k + 1))
SubMove(p, s, e, c, out) ==
    LET gold == Mom(p, c.gold, SubGrad(p, e, out))
        w1 == [q \in DOMAIN e.w |-> e.w[q] + Lr(p, s.t, gold[q])]
    IN [w |-> w1, gold |-> gold,
        A |-> IF p.avg = "none" THEN w1
              ELSE [q \in DOMAIN w1 |-> c.A[q] + FMul(AvgShare(p, s.t + 1), w1[q] - c.A[q])]]
SubStepPost(p, s, e) ==
    LET from == IF Fits(s, e.w) = {} THEN {CHOOSE c \in s.cand : TRUE} ELSE Fits(s, e.w)
        seen == s.seen \cup {e.is[q] : q \in DOMAIN e.is}
        done == Cardinality(seen) = N(p)
        \* a latent learner adds up the slacks its steps saw
        on == Sum([q \in DOMAIN e.is |-> Max2(0, Gain(p, e, q))])
        pos == \E q \in DOMAIN e.is : Slack(p, s.tab, e.w, e.is[q]) > 60
    IN [s EXCEPT !.cand = {SubMove(p, s, e, c, out) : c \in from, out \in SUBSET Ties(p, e)},
                 !.t = @ + 1, !.known = TRUE,
                 !.seen = IF done THEN {} ELSE seen, !.k = IF done THEN 0 ELSE @ + 1,
                 !.ep = IF done THEN @ + 1 ELSE @,
                 !.osum = IF s.seen = {} THEN on ELSE @ + on,
                 !.pos = IF s.seen = {} THEN pos ELSE (@ \/ pos),
                 \* every answer of the epoch was the truth
                 !.zero = (s.seen = {} \/ @) /\ e.ys = e.hs]
SubEpoch(p, s, e) ==
    Need("epoch-complete", s.seen = {} /\ s.ep = s.nobj + 1)
    \cup Need("stops-without-slack", ~(p.brk /\ s.zero))
    \cup Need("weights-after-epoch", FitsA(s, e.w) # {})
    \cup Need("objective-is-risk", p.latent \/ Near(e.obj, TrueRisk(p, s.tab, e.w), RTol))
    \cup Need("objective-of-the-steps", ~p.latent \/ Near(e.obj, CMul(p, s.osum) + Half(FNorm2(e.w)), RTol))
SubEpochPost(p, s, e) == [s EXCEPT !.nobj = @ + 1,
                          !.cand = IF FitsA(s, e.w) = {} THEN @ ELSE FitsA(s, e.w)]
SubEnd(p, s, e) ==
    Need("epoch-complete", s.seen = {})
    \cup Need("final-weights", FitsA(s, e.w) # {})
    \cup Need("final-objective-is-risk", Near(e.obj, TrueRisk(p, s.tab, e.w), RTol))
    \cup Need("curve-length", e.nobj = s.off + s.nobj + 1)
    \cup Need("stops-only-without-slack", s.ep = p.maxit \/ (s.ep = s.nobj + 1 /\ ~s.pos /\ p.brk))
    \cup Need("epochs-recorded", s.ep \in {s.nobj, s.nobj + 1} /\ (s.ep = s.nobj + 1 => ~s.pos))

\* predictions of a latent learner are the visible part of its latent predictions, these
\* maximize the score, and the score of the learner counts visible labels
LatScore(p, s, e) ==
    LET ok == \A i \in 1..N(p) : Legal(p.m, p.xs[i], e.hs[i])
        mx == Sum([i \in 1..N(p) |-> MaxLossV(p.m, p.ys[i])])
        ls == Sum([i \in 1..N(p) |-> VLoss(p.m, p.ys[i], e.preds[i])])
        top(i) == Max({Sc(p, e.w, JF(p.m, p.xs[i], h)) : h \in Labelings(Dom(p.m, p.xs[i]))})
    IN Need("legal-prediction", Len(e.hs) = N(p) /\ Len(e.preds) = N(p) /\ ok)
       \cup (IF ~ok THEN {} ELSE
             Need("visible-part", \A i \in 1..N(p) : e.preds[i] = Visible(p.m, p.xs[i], e.hs[i]))
             \cup Need("maximal-prediction", \A i \in 1..N(p) : Sc(p, e.w, JF(p.m, p.xs[i], e.hs[i])) >= top(i) - 40)
             \cup Need("score-counts-visible-labels", Near((FX - e.val) * mx, ls * FX, 2 * mx)))

\* ------------------------------------------------------------ Frank-Wolfe
\* one block per sample (or a single block in batch mode): a point of C * the convex
\* hull of the difference vectors, and its loss
Blocks(p) == IF p.batchmode THEN 1 ELSE N(p)
FwStart(p) == [W |-> [b \in 1..Blocks(p) |-> Zero(p)], L |-> [b \in 1..Blocks(p) |-> 0],
               A |-> Zero(p), AL |-> 0, k |-> 0, it |-> 0, seen |-> <<>>, gap |-> -1, nchk |-> 0]
TotW(s) == VSum([b \in DOMAIN s.W |-> s.W[b]], [q \in DOMAIN s.A |-> 0])
TotL(s) == Sum([b \in DOMAIN s.L |-> s.L[b]])
\* dual value of weights w with (C-weighted) loss lv
DualVal(w, lv) == lv - Half(FNorm2(w))
Vertex(p, e) == LET d == VSum([q \in DOMAIN e.is |-> Delta(p.m, p.xs[e.is[q]], p.ys[e.is[q]], e.ys[q])], Zero(p))
                IN [q \in DOMAIN d |-> CMul(p, FX * d[q]) \div JFScale(p.m)]
VertexL(p, e) == CMul(p, Sum([q \in DOMAIN e.is |-> (FX * LossTo(p, e.is[q], e.ys[q])) \div p.m.D]))
Block(p, e) == IF p.batchmode THEN 1 ELSE e.is[1]
Mix(g, a, b) == a + FMul(g, b - a)
MixV(g, a, b) == [q \in DOMAIN a |-> a[q] + FMul(g, b[q] - a[q])]
Gammas == {0, FX \div 8, FX \div 4, FX \div 2, (3 * FX) \div 4, FX}
\* the dual value after a step of size g
After(p, s, e, w, g) ==
    LET b == Block(p, e)
        nw == [q \in DOMAIN w |-> w[q] + FMul(g, Vertex(p, e)[q] - s.W[b][q])]
    IN DualVal(nw, TotL(s) + FMul(g, VertexL(p, e) - s.L[b]))
FwStepClauses(p, s, e) ==
    LET ok == /\ \A q \in DOMAIN e.is : e.is[q] \in 1..N(p) /\ Legal(p.m, p.xs[e.is[q]], e.ys[q])
              /\ IF p.batchmode THEN e.is = [i \in 1..N(p) |-> i] ELSE Len(e.is) = 1
    IN Need("legal-answers", ok)
       \cup Need("iteration-limit", s.it < p.maxit)
       \cup (IF ~ok THEN {} ELSE
             Need("weights-are-the-dual-point", VNear(e.w, TotW(s), 60))
             \cup Need("most-violated", \A q \in DOMAIN e.is :
                    AugVal(p, e.w, e.is[q], e.ys[q]) >= AugTop(p, s.tab, e.w, e.is[q]) - 40)
             \cup Need("step-size", e.gam \in 0..FX)
             \cup Need("sampling", p.batchmode \/ CASE p.sampling = "seq" -> e.is[1] = Len(s.seen) + 1
                          [] p.sampling = "perm" -> ~InSeq(s.seen, e.is[1])
                          [] OTHER -> TRUE)
             \cup (IF ~p.ls THEN {} ELSE
                   LET d1 == After(p, s, e, e.w, e.gam)
                   IN Need("line-search-monotone", d1 >= After(p, s, e, e.w, 0) - 60)
                      \cup Need("line-search-optimal", \A g \in Gammas : d1 >= After(p, s, e, e.w, g) - 100)))
FwStepPost(p, s, e) ==
    LET b == Block(p, e)
        \* the block follows the recorded weights
        drift == VSub(e.w, TotW(s))
        Wb == VAdd(s.W[b], drift)
        W1 == [s.W EXCEPT ![b] = MixV(e.gam, Wb, Vertex(p, e))]
        L1 == [s.L EXCEPT ![b] = Mix(e.gam, @, VertexL(p, e))]
        s1 == [s EXCEPT !.W = W1, !.L = L1]
        rho == (2 * FX) \div (s.k + 2)
        av == p.avg /\ ~p.batchmode
        seen == Append(s.seen, e.is[1])
        done == p.batchmode \/ Len(seen) = N(p)
    IN [s1 EXCEPT !.A = IF av THEN MixV(rho, s.A, TotW(s1)) ELSE TotW(s1),
                  !.AL = IF av THEN Mix(rho, s.AL, TotL(s1)) ELSE TotL(s1),
                  !.k = @ + 1, !.seen = IF done THEN <<>> ELSE seen,
                  !.it = IF done THEN @ + 1 ELSE @]
\* reported values for the weights e.w, whose dual loss is lv
FwReport(p, s, e, w, lv) ==
    Need("dual-value", Near(e.dual, DualVal(w, lv), RTol))
    \cup Need("dual-below-optimum", e.dual <= s.hi + RTol)
    \cup Need("primal-is-risk", Near(e.primal, TrueRisk(p, s.tab, w), RTol))
    \cup Need("primal-above-optimum", e.primal >= s.lo - RTol)
FwCheck(p, s, e) ==
    IF p.batchmode
    THEN Need("reported-weights", VNear(e.w, TotW(s), 60)) \cup FwReport(p, s, e, e.w, TotL(s))
    ELSE Need("reported-weights", VNear(e.w, s.A, 150)) \cup FwReport(p, s, e, e.w, s.AL)
         \cup Need("between-iterations", s.seen = <<>>)
         \cup Need("checked-on-schedule", p.every > 0 /\ (s.it - 1) % p.every = 0)
FwCheckPost(p, s, e) == [s EXCEPT !.gap = e.primal - e.dual, !.nchk = @ + 1]
FwEnd(p, s, e) ==
    LET g == IF p.batchmode THEN MulDiv(s.gap, p.CD, p.CN * N(p)) ELSE s.gap
        \* number of checks: iterations 0, every, 2 * every, ..
        nchk == IF p.batchmode THEN s.it ELSE IF p.every = 0 THEN 0 ELSE ((s.it + p.every - 1) \div p.every)
    IN Need("final-weights", VNear(e.w, s.A, 150))
       \cup Need("number-of-checks", s.nchk = nchk)
       \cup Need("final-primal-is-risk", Near(e.primal, TrueRisk(p, s.tab, e.w), RTol))
       \cup Need("curve-lengths", e.lens = <<s.nchk + 1, s.nchk + 1>>)
       \cup Need("stops-at-gap", s.it = p.maxit \/ (s.gap >= 0 - 20 /\ g <= p.tol + 20))
       \cup Need("whole-iterations", s.seen = <<>>)

\* ------------------------------------------------------------ interrupted runs
\* The recorded run is done again and interrupted; e.lo .. e.hi steps are complete (steps
\* of the run above: samples, or groups of samples), e.at iterations were logged.
\* s.hist[j] are the weights the learner may hold after step j.
Held(p, s) == CASE p.alg = "perc" -> IF p.avg < -1 \/ s.acnt = 0 THEN {s.w} ELSE {[q \in DOMAIN s.asum |-> s.asum[q] \div s.acnt]}
                                     \* averages of the last epoch start anew with the next one
                                     \cup (IF p.avg = -1 /\ s.j = 0 THEN {s.w} ELSE {})
                                     \* in the middle of a batch
                                     \cup (IF p.avg = -1 /\ p.batch THEN {s.w} ELSE {})
                [] p.alg = "sub" -> {c.A : c \in s.cand}
                [] OTHER -> {s.A}
HeldTol(p) == IF p.alg = "perc" THEN 30 ELSE IF p.alg = "sub" THEN 100 ELSE 150
StopsAt(p, s, e) == {j \in e.lo .. e.hi : j = 0 \/
                        (j <= Len(s.hist) /\ \E v \in s.hist[j] : VNear(e.w, v, HeldTol(p)))}
                    \ (IF p.latent \/ MaxAbs(e.w) <= 2 THEN {} ELSE {0})
StopStep(p, s, e) ==
    LET maxl == Sum([i \in DOMAIN p.xs |-> MaxLossV(p.m, p.ys[i])])
        some(k) == k = e.at \/ k = e.at + 1
    IN Need("interrupt-handled", e.ret)
       \cup Need("final-logged", e.logged)
       \cup Need("predicts", p.latent \/ \A i \in 1..N(p) : Legal(p.m, p.xs[i], e.preds[i]))
       \cup Need("weights-of-a-step", StopsAt(p, s, e) # {})
       \cup CASE p.alg = "perc" ->
                    Need("loss-curve", /\ some(Len(e.curve)) /\ Len(e.curve) <= Len(s.curve)
                        /\ \A k \in DOMAIN e.curve : Near(e.curve[k] * maxl, s.curve[k] * FX, maxl))
              [] p.alg = "sub" ->
                    Need("final-objective-is-risk", e.curve # <<>> /\ Near(e.curve[Len(e.curve)], TrueRisk(p, s.tab, e.w), RTol))
                    \cup Need("curve", /\ some(Len(e.curve) - 1) /\ Len(e.curve) - 1 <= Len(s.objs)
                        /\ \A k \in 1 .. Len(e.curve) - 1 : Near(e.curve[k], s.objs[k], 2))
              [] OTHER ->
                    Need("final-primal-is-risk", Near(e.primal, TrueRisk(p, s.tab, e.w), RTol))
                    \cup Need("dual-below-optimum", e.dual <= s.hi + RTol)
                    \cup Need("curve-lengths", e.lens[1] = e.lens[2] /\ e.lens[1] - 1 \in e.chk .. (e.chk + 1))
\* what follows are the events of the resumed run
StopStepPost(p, s, e) ==
    IF ~e.cont THEN s
    ELSE LET j == e.lo IN
         [s EXCEPT !.t = j, !.nobj = Len(e.curve) - 1, !.off = 0,
                   !.cand = IF j = 0 THEN {[w |-> e.w, gold |-> Zero(p), A |-> e.w]}
                            ELSE {c \in s.past[j] : VNear(e.w, c.A, 100)}]

\* ------------------------------------------------------------ the machine
VARIABLES t, l, st
Hist0 == [hist |-> <<>>, objs |-> <<>>, past |-> <<>>]
Start(p) == Hist0 @@
    CASE p.alg = "perc" -> PercStart(p)
      [] p.alg = "sub"  -> SubStart(p) @@ [tab |-> TLCEval(CurTable(p))]
      [] p.alg = "fw"   -> LET z == Solve(p)
                           IN FwStart(p) @@ [tab |-> TLCEval(CurTable(p)), lo |-> z.lo, hi |-> z.hi, cert |-> z.cert]
Clauses(p, s, e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] e.ev = "begin" -> IF p.alg = "fw" THEN Need("certificate", s.cert /\ s.hi - s.lo <= 200) ELSE {}
      [] e.ev = "pred"  -> PercPredClauses(p, s, e)
      [] e.ev = "step"  -> IF p.alg = "sub" THEN SubStepClauses(p, s, e) ELSE FwStepClauses(p, s, e)
      [] e.ev = "epoch" -> SubEpoch(p, s, e)
      [] e.ev = "check" -> FwCheck(p, s, e)
      [] e.ev = "restart" -> {}
      [] e.ev = "stop" -> StopStep(p, s, e)
      [] e.ev = "score" -> LatScore(p, s, e)
      [] e.ev = "end"   -> CASE p.alg = "perc" -> PercEnd(p, s, e)
                             [] p.alg = "sub" -> SubEnd(p, s, e)
                             [] OTHER -> FwEnd(p, s, e)
      [] OTHER -> {"unknown-event"}
PostMain(p, s, e) ==
    CASE e.ev = "pred" /\ e.i \in 1..N(p) /\ Legal(p.m, p.xs[e.i], e.y) -> PercPredPost(p, s, e)
      [] e.ev = "step"  -> IF p.alg = "sub" THEN SubStepPost(p, s, e) ELSE FwStepPost(p, s, e)
      [] e.ev = "epoch" -> SubEpochPost(p, s, e)
      [] e.ev = "check" -> FwCheckPost(p, s, e)
      [] e.ev = "stop" -> StopStepPost(p, s, e)
      \* fit is called again.  warm: weights, step counter and curves go on, momentum starts
      \* anew.  fresh: everything starts anew
      [] e.ev = "restart" ->
            IF p.alg = "perc" THEN Hist0 @@ PercStart(p)
            ELSE IF p.alg = "sub"
            THEN IF e.mode = "warm"
                 THEN [s EXCEPT !.cand = {[c EXCEPT !.w = c.A, !.gold = Zero(p)] : c \in @}, !.ep = 0, !.k = 0, !.seen = {},
                                !.off = s.off + s.nobj + 1, !.nobj = 0]
                 ELSE Hist0 @@ SubStart(p) @@ [tab |-> s.tab]
            ELSE Hist0 @@ FwStart(p) @@ [tab |-> s.tab, lo |-> s.lo, hi |-> s.hi, cert |-> s.cert]
      [] OTHER -> s
Post(p, s, e) ==
    LET z == PostMain(p, s, e)
    IN IF ~p.stops THEN z
       ELSE IF e.ev \in {"pred", "step"}
       THEN [z EXCEPT !.hist = Append(@, Held(p, z)), !.past = IF p.alg = "sub" THEN Append(@, z.cand) ELSE @]
       ELSE IF e.ev = "epoch" THEN [z EXCEPT !.objs = Append(@, e.obj)] ELSE z

Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = Start(P(t))
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(P(t), st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(P(t), st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
