------------------------------- MODULE TraceCP -------------------------------
(* Runs of the cutting-plane learners (n-slack, one-slack) as behaviours of   *)
(* the algorithm: separation (a pass of loss-augmented inference at the        *)
(* current weights), choice of a constraint from the cache, refit of the       *)
(* quadratic program over the constraints, pruning, stopping.  The state is    *)
(* what the specification allows so far; every recorded step has to be a step  *)
(* of it (the clauses it breaks are printed), and the state then follows the   *)
(* recorded step.                                                              *)
EXTENDS Learn, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Tol == 500                                        \* 0.0076 on risks
WTol == 2                                         \* the same weights

--------------------------------------------------------------- \* labelings
\* a recorded answer is a labeling ("y") or marginals ("mu", "nu", scale K)
K == 4096
AnsD(p, i, a) == IF a.kind = "y" THEN Delta(p.m, p.xs[i], p.ys[i], a.y)
                 ELSE LET g == JF(p.m, p.xs[i], p.ys[i])
                          r == JFRel(p.m, p.xs[i], a.mu, a.nu)
                      IN [q \in DOMAIN g |-> (K * g[q] - r[q]) \div K]
AnsL(p, i, a) == Loss(p.m, p.xs[i], p.ys[i], a.y)
AnsOk(p, i, a) == a.kind = "y" => Legal(p.m, p.xs[i], a.y)
\* scale FX / FX, for marginals too
AnsDF(p, i, a) == IF a.kind = "y" THEN VScale(FX, Delta(p.m, p.xs[i], p.ys[i], a.y))
                  ELSE LET g == JF(p.m, p.xs[i], p.ys[i])
                           r == JFRel(p.m, p.xs[i], a.mu, a.nu)
                       IN [q \in DOMAIN g |-> (FX \div K) * (K * g[q] - r[q])]
AnsLF(p, i, a) == IF a.kind = "y" THEN FX * Loss(p.m, p.xs[i], p.ys[i], a.y)
                  ELSE (FX \div K) * LossRel(p.m, p.xs[i], p.ys[i], a.mu, K)
N(p) == Len(p.xs)
TruthTol(p) == IF p.relaxed THEN 150 * JFScale(p.m) * p.m.D * Len(p.xs) ELSE 2 * p.m.D

--------------------------------------------------------------- \* the quadratic program
\* constraints are [d, l]: d scale FX * JFScale * (n for one-slack), l scale FX * D * (n)
ConViol(p, w, c) == c.l \div p.m.D - FDot(w, c.d) \div JFScale(p.m)
\* one slack: C * max(0, max over the (summed) constraints)
Qp1(p, w, cons) == CMul(p, Max({0} \cup {ConViol(p, w, cons[k]) : k \in DOMAIN cons})) + Half(FNorm2(w))
\* without the constraint 0 >= 0 - slack (pruned): the maximum itself
Qp1Dual(p, cons, al) ==
    LET v == VSum([k \in DOMAIN cons |-> [q \in DOMAIN cons[k].d |-> FMul(al[k], cons[k].d[q])]],
                  VZero(SizeJF(p.m)))
    IN Sum([k \in DOMAIN cons |-> FMul(al[k], cons[k].l) \div p.m.D])
       - Half(FNorm2([q \in DOMAIN v |-> v[q] \div JFScale(p.m)]))
QpN(p, w, cons) == CMul(p, Sum([i \in DOMAIN cons |->
                       Max({0} \cup {ConViol(p, w, cons[i][k]) : k \in DOMAIN cons[i]})])) + Half(FNorm2(w))

Nonneg(al) == \A k \in DOMAIN al : al[k] >= 0
\* the weights are optimal for the constraints: dual value of a feasible certificate
Optimal1(p, w, cons, al, tol) == /\ Nonneg(al) /\ Sum([k \in DOMAIN al |-> al[k]]) <= CMul(p, FX)
                                 /\ Qp1(p, w, cons) - Qp1Dual(p, cons, al) <= tol
OptimalN(p, w, cons, al, tol) ==
    LET flat == FlattenSeq(cons)
    IN /\ \A i \in DOMAIN al : Nonneg(al[i]) /\ Sum([k \in DOMAIN al[i] |-> al[i][k]]) <= CMul(p, FX)
       /\ QpN(p, w, cons) - Qp1Dual(p, flat, FlattenSeq(al)) <= tol

\* s is a subsequence of u
RECURSIVE IsSubseq(_, _)
IsSubseq(s, u) == IF s = <<>> THEN TRUE
                  ELSE IF u = <<>> THEN FALSE
                  ELSE IF Head(s) = Head(u) THEN IsSubseq(Tail(s), Tail(u)) ELSE IsSubseq(s, Tail(u))
NegOk(p, w) == \A i \in DOMAIN p.neg : w[p.neg[i] + 1] <= 20
\* the constraints on signs are idle: the certified optimum without them obeys them
Idle(p, cons, al) ==
    \/ p.neg = <<>>
    \/ \A i \in DOMAIN p.neg :
          Sum([k \in DOMAIN cons |-> FMul(al[k], cons[k].d[p.neg[i] + 1])]) <= -200

--------------------------------------------------------------- \* the cache
\* a bounded queue of distinct answers per sample; entries [a, d, l]
Holds(q, a) == \E k \in DOMAIN q : q[k] = a
Enqueue(q, cap, a) == Append(IF Len(q) >= cap THEN SubSeq(q, Len(q) - cap + 2, Len(q)) ELSE q, a)
CacheUpdate(cache, cap, ans) ==
    [i \in DOMAIN cache |-> IF cap = 0 \/ Holds(cache[i], ans[i]) THEN cache[i]
                            ELSE Enqueue(cache[i], cap, ans[i])]
\* the most violated cached answers: per sample the set of (nearly) best ones
Best(p, w, i, q) ==
    LET v(a) == AnsLF(p, i, a) \div p.m.D - FDot(w, AnsDF(p, i, a)) \div JFScale(p.m)
        mx == Max({v(q[k]) : k \in DOMAIN q})
    IN {q[k] : k \in {k \in DOMAIN q : v(q[k]) >= mx - 40}}
SumD(p, ans) == VSum([i \in DOMAIN ans |-> AnsDF(p, i, ans[i])], VZero(SizeJF(p.m)))
SumL(p, ans) == Sum([i \in DOMAIN ans |-> AnsLF(p, i, ans[i])])
SameCon(p, c, d, l) == VNear(c.d, d, TruthTol(p)) /\ Near(c.l, l, TruthTol(p))

--------------------------------------------------------------- \* separation
\* every sample was asked about once, at the current weights, and (with an exact
\* solver) the answer is most violated
PassClauses(p, s, e) ==
    LET ansok == \A j \in DOMAIN e.ans : AnsOk(p, e.is[j], e.ans[j])
    IN Need("legal-answer", ansok)
       \cup (IF e.exact /\ ansok
             THEN Need("most-violated", \A j \in DOMAIN e.ans :
                    e.ans[j].kind = "y" =>
                    Viol(p.m, e.ws[j], Delta(p.m, p.xs[e.is[j]], p.ys[e.is[j]], e.ans[j].y), AnsL(p, e.is[j], e.ans[j]))
                      >= VMax(p.m, s.tab, e.is[j], e.ws[j]) - 40)
             ELSE {})

\* ------------------------------------------------------------- one-slack
Find1(p, s, e) == PassClauses(p, s, e)
       \cup Need("at-current-weights", \A j \in DOMAIN e.ws : VNear(e.ws[j], s.w, WTol))
       \cup Need("each-sample-once", e.is = [j \in 1..N(p) |-> j])

\* the constraint this iteration adds, as far as it is determined
NewCon1(p, s, e) == IF e.unseen THEN TRUE
    ELSE IF e.cached
    THEN IF \E i \in DOMAIN s.cache : s.cache[i] = <<>> THEN FALSE
         ELSE LET pick(i) == Best(p, s.w, i, s.cache[i])
                  \* sums over all selections, built sample by sample
                  all == FoldLeft(LAMBDA acc, i : {Append(c, a) : c \in acc, a \in pick(i)},
                                  {<<>>}, [i \in 1..N(p) |-> i])
              IN \E c \in all : SameCon(p, e.new, SumD(p, c), SumL(p, c))
    ELSE s.pend # <<>> /\ SameCon(p, e.new, SumD(p, s.pend), SumL(p, s.pend))

GainN(p, s, e) == {i \in 1..N(p) : Len(e.cons[i]) > 0 /\ ~ \E k \in DOMAIN s.cons[i] :
                                       s.cons[i][k].a = e.cons[i][Len(e.cons[i])].a}
DropN(s, e) == \E i \in DOMAIN s.cons : ~IsSubseq([k \in DOMAIN s.cons[i] |-> s.cons[i][k].a],
                                                  [k \in DOMAIN e.cons[i] |-> e.cons[i][k].a])
--------------------------------------------------------------- \* pruning
\* A constraint that was clearly inactive in more refits in a row than the window is
\* long is gone; with a window of 0 nothing goes.  What goes does not move the optimum.
IdleGap(p) == 13000                               \* 0.2 per sample
IdleCount(was, gap, lim) == IF gap > lim THEN was + 1 ELSE 0
\* idle counts of cons[k] after the refit that gave w, from the counts before
Idle1(p, s, w, all) ==
    LET v == [k \in DOMAIN all |-> ConViol(p, w, all[k])]
        m == Max({0} \cup Range(v))
    IN [k \in DOMAIN all |-> IdleCount(IF k \in DOMAIN s.idle THEN s.idle[k] ELSE 0, m - v[k], N(p) * IdleGap(p))]
Keeps(all, idle, cons) == [j \in DOMAIN cons |->
    Min({idle[k] : k \in {k \in DOMAIN all : all[k] = cons[j]}} \cup {9999})]
Gone1(p, s, e) ==
    LET all == Append(s.cons, e.new)
        idle == Idle1(p, s, e.w, all)
        keep == Keeps(all, idle, e.cons)
    IN IF p.win = 0 THEN Need("nothing-dropped", e.unseen \/ e.cons = all)
       ELSE Need("inactive-dropped", ~p.thrhigh \/ FNorm2(e.w) < 6000
                    \/ \A j \in DOMAIN keep : keep[j] <= p.win \/ keep[j] = 9999)
            \cup Need("active-kept", p.neg # <<>> \/ Len(e.cons) = Len(all)
                    \/ Optimal1(p, e.w, e.cons, e.al2, 2 * Tol))
IdleN(p, s, w, cons) == [i \in DOMAIN cons |->
    LET v == [k \in DOMAIN cons[i] |-> ConViol(p, w, cons[i][k])]
        m == Max({0} \cup Range(v))
        was(k) == LET q == {j \in DOMAIN s.cons[i] : s.cons[i][j].a = cons[i][k].a}
                  IN IF q = {} \/ i \notin DOMAIN s.idle THEN 0
                     ELSE IF Min(q) \in DOMAIN s.idle[i] THEN s.idle[i][Min(q)] ELSE 0
    IN [k \in DOMAIN cons[i] |-> IdleCount(was(k), m - v[k], IdleGap(p))]]
GoneN(p, s, e) ==
    LET idle == IdleN(p, s, e.w, e.cons)
    IN IF p.win = 0 THEN Need("nothing-dropped", ~DropN(s, e))
       ELSE Need("inactive-dropped", ~p.thrhigh \/ Len(p.batches) > 1 \/ GainN(p, s, e) = {}
                    \/ \A i \in DOMAIN idle : \A k \in DOMAIN idle[i] : idle[i][k] <= p.win)

Iter1(p, s, e) ==
    LET all  == Append(s.cons, e.new)
        full == IsSubseq(e.cons, all)
        viol == ConViol(p, s.w, e.new)
        prim == CMul(p, Max2(0, viol)) + Half(FNorm2(s.w))
        ot   == ~e.unseen /\ Idle(p, all, e.al)
        newcache == IF e.cached THEN s.cache ELSE CacheUpdate(s.cache, p.cap, s.pend)
    IN Need("new-constraint-truthful", NewCon1(p, s, e))
       \cup Need("constraints-kept", full)
       \cup Need("constraint-not-stored", ~e.unseen \/ p.neg # <<>>)
       \cup Need("cached-flag", e.cached <=> s.pend = <<>>)
       \cup Need("cache-disabled", e.cached => p.cap > 0)
       \cup Need("cache", p.cap = 0 \/ \A i \in 1..N(p) :
                    \/ e.cache[i] = newcache[i]
                    \* marginals that differ by less than the recorder can tell
                    \/ /\ ~p.script /\ ~e.cached /\ s.pend[i].kind = "m" /\ Holds(s.cache[i], s.pend[i])
                       /\ e.cache[i] = Enqueue(s.cache[i], p.cap, s.pend[i]))
       \cup Need("qp-optimal", ~ot \/ Optimal1(p, e.w, all, e.al, Tol))
       \cup Gone1(p, s, e)
       \cup Need("nonpositive", NegOk(p, e.w))
       \cup Need("dual-value", ~ot \/ Near(e.dual, Qp1(p, e.w, all), Tol))
       \cup Need("dual-below-optimum", ~p.bound \/ e.dual <= s.hi + Tol)
       \cup Need("dual-monotone", s.dropped \/ s.dual = -FX \/ ~ot \/ p.neg # <<>> \/ e.dual >= s.dual - Tol)
       \cup Need("primal-value", e.unseen \/ Near(e.primal, prim, Tol))
       \cup Need("primal-above-optimum", e.cached \/ ~p.bound \/ ~s.exact \/ e.primal >= s.lo - Tol)

Slack1(p, w, cons) == Max({0} \cup {ConViol(p, w, cons[k]) : k \in DOMAIN cons})
End1(p, s, e) ==
    LET vsum == SlackSum(p.m, s.tab, s.w)
        n == N(p)
    IN Need("final-weights", VNear(e.w, s.w, WTol))
       \cup Need("iteration-limit", s.iters <= p.maxit)
       \cup Need("final-constraints", e.cons = s.cons)
       \cup Need("final-risk", ~p.exactend \/ Near(e.primal, Risk(p, s.tab, s.w), Tol))
       \cup Need("final-dual", Near(e.dual, s.dual, 2))
       \cup Need("curve-lengths", e.lens = <<s.total + e.extra, s.total + e.extra, s.total + e.extra>>)
       \* stopped by itself: no constraint is violated by tol more than the current ones
       \cup Need("stops-near-optimum", \/ s.iters = p.maxit \/ ~p.exactend \/ p.neg # <<>>
                    \/ vsum - Slack1(p, s.w, s.cons) <= n * p.tol + Tol)
       \cup Need("risk-near-optimum", \/ s.iters = p.maxit \/ ~p.exactend \/ p.neg # <<>>
                    \/ Risk(p, s.tab, s.w) <= s.hi + CMul(p, n * p.tol) + Tol)

\* ------------------------------------------------------------- n-slack
FindN(p, s, e) == PassClauses(p, s, e)
       \cup Need("each-sample-once", e.is = [j \in 1..N(p) |-> j])
       \cup Need("starts-at-current-weights", VNear(e.ws[1], s.w, WTol))
       \cup Need("one-weights-per-batch", \A b \in DOMAIN p.batches :
                    \A j \in p.batches[b][1] .. p.batches[b][2] : VNear(e.ws[j], e.ws[p.batches[b][1]], WTol))

AnsSlack(p, s, j) == IF s.pend[j].kind = "y"
    THEN Viol(p.m, s.pw[j], Delta(p.m, p.xs[j], p.ys[j], s.pend[j].y), AnsL(p, j, s.pend[j]))
    ELSE AnsLF(p, j, s.pend[j]) \div p.m.D - FDot(s.pw[j], AnsDF(p, j, s.pend[j])) \div JFScale(p.m)
\* what sample i may gain in this pass
GainOk(p, s, e, i) ==
    LET old == [k \in DOMAIN s.cons[i] |-> s.cons[i][k]]
        new == e.cons[i]
        a   == s.pend[i]
        isold == \E k \in DOMAIN old : old[k].a = a
        added == new # <<>> /\ new[Len(new)].a = a /\ ~isold
        fa == [k \in DOMAIN new |-> new[k].a]
    IN IF a.kind = "m" /\ ~p.script THEN IsSubseq(fa, Append([k \in DOMAIN old |-> old[k].a], a)) ELSE
       /\ IF added THEN IsSubseq(SubSeq(new, 1, Len(new) - 1), old) ELSE IsSubseq(new, old)
       \* a clearly violated new labeling is added, a satisfied one is not
       /\ LET sl == AnsSlack(p, s, i)
          IN /\ (sl > 30 /\ ~isold /\ AnsLF(p, i, a) > 0) => added
             /\ added => sl > -30
TruthN(p, cons) == \A i \in DOMAIN cons : \A k \in DOMAIN cons[i] :
                      /\ AnsOk(p, i, cons[i][k].a)
                      /\ SameCon(p, cons[i][k], AnsDF(p, i, cons[i][k].a), AnsLF(p, i, cons[i][k].a))
\* the objective of a pass with all samples in one batch is the risk of the weights
\* the pass started with
IterN(p, s, e) ==
    LET single == Len(p.batches) = 1
        gained == GainN(p, s, e)
        prim == Risk(p, s.tab, s.w)
        idle == Idle(p, FlattenSeq(e.cons), FlattenSeq(e.al))
    IN Need("constraints", \A i \in 1..N(p) : GainOk(p, s, e, i))
       \cup Need("constraints-truthful", TruthN(p, e.cons))
       \cup GoneN(p, s, e)
       \cup Need("qp-optimal", ~idle \/ OptimalN(p, e.w, e.cons, e.al, Tol))
       \cup Need("nonpositive", NegOk(p, e.w))
       \cup Need("dual-value", ~idle \/ Near(e.dual, QpN(p, e.w, e.cons), Tol))
       \cup Need("dual-below-optimum", ~p.bound \/ e.dual <= s.hi + Tol)
       \cup Need("dual-monotone", s.dropped \/ s.dual = -FX \/ p.neg # <<>> \/ e.dual >= s.dual - Tol)
       \cup Need("primal-value", ~single \/ ~s.exact \/ Near(e.primal, prim, Tol))
       \cup Need("primal-above-optimum", ~single \/ ~p.bound \/ ~s.exact \/ e.primal >= s.lo - Tol)
       \* went on although the last pass was the last one
       \cup Need("stops-when-done", p.relaxed \/ s.stop = FALSE)
EndN(p, s, e) ==
    Need("final-weights", VNear(e.w, s.w, WTol))
    \cup Need("iteration-limit", s.iters <= p.maxit)
    \cup Need("final-risk", ~p.exactend \/ Near(e.primal, Risk(p, s.tab, s.w), Tol))
    \cup Need("final-dual", Near(e.dual, s.dual, 2))
    \cup Need("curve-lengths", e.lens = <<s.iters + 1, s.iters + 1>>)
    \cup Need("stopped-early", \/ s.iters = p.maxit \/ s.conv \/ s.nonew)
    \cup Need("risk-near-optimum", ~s.nonew \/ ~p.exactend \/ p.neg # <<>>
                 \/ Risk(p, s.tab, s.w) <= s.hi + Tol)

--------------------------------------------------------------- \* interrupted runs
\* The run that was recorded so far is done again and interrupted after e.at whole
\* iterations (or while the last of them is written down).  What it leaves behind is
\* the state of the uninterrupted run at that point.
At(p, s, j) == IF j = 0 THEN [w |-> VZero(SizeJF(p.m)), dual |-> 0,
                              cons |-> IF p.alg = "1" THEN << [d |-> VZero(SizeJF(p.m)), l |-> 0] >>
                                       ELSE [i \in 1..N(p) |-> <<>>]]
               ELSE s.hist[j]
StopAny(p, s, e) ==
    Need("interrupt-handled", e.ret)
    \cup Need("final-logged", e.logged)
    \cup Need("predicts", \A i \in 1..N(p) : Legal(p.m, p.xs[i], e.preds[i]))
    \cup Need("final-risk", ~p.exactend \/ Near(e.primal, Risk(p, s.tab, e.w), Tol))
    \cup Need("dual-below-optimum", ~p.bound \/ e.dual <= s.hi + Tol)
StopAt(s, e) == {j \in {e.at, e.at + 1} : j <= Len(s.hist)}
Stop1(p, s, e) ==
    StopAny(p, s, e)
    \cup Need("weights-of-an-iteration", \E j \in StopAt(s, e) : VNear(e.w, At(p, s, j).w, WTol))
    \cup Need("state-of-one-iteration", \E j \in StopAt(s, e) :
                 /\ VNear(e.w, At(p, s, j).w, WTol) /\ e.cons = At(p, s, j).cons
                 /\ Near(e.dual, At(p, s, j).dual, 2) /\ e.lens = <<j + 1, j + 1, j + 1>>)
\* n-slack: weights change within a pass, constraints are collected before
StopN(p, s, e) ==
    StopAny(p, s, e)
    \cup Need("weights-of-a-pass", \E v \in s.seenw : VNear(e.w, v, WTol))
    \cup Need("constraints-truthful", TruthN(p, e.cons))
    \cup Need("constraints-distinct", \A i \in DOMAIN e.cons : \A k, q \in DOMAIN e.cons[i] :
                 k # q => e.cons[i][k].a # e.cons[i][q].a)
    \cup Need("constraints-kept", ~p.keep \/ e.at > Len(s.hist) \/ \A i \in 1..N(p) :
                 IsSubseq(At(p, s, e.at).cons[i], e.cons[i]))
    \cup Need("curve-lengths", \E j \in {e.at, e.at + 1} : e.lens = <<j + 1, j + 1>>)
    \cup Need("dual-kept", ~p.keep \/ e.at > Len(s.hist) \/ e.dual >= At(p, s, e.at).dual - Tol)

--------------------------------------------------------------- \* the machine
VARIABLES t, l, st
P(tt) == Traces[tt].prob
Start(p) == LET z == Solve(p)
            IN [tab |-> z.tab, lo |-> z.lo, hi |-> z.hi, cert |-> z.cert,
                w |-> VZero(SizeJF(p.m)), pw |-> <<>>, pend |-> <<>>, exact |-> TRUE,
                cons |-> IF p.alg = "1" THEN << [d |-> VZero(SizeJF(p.m)), l |-> 0] >>
                         ELSE [i \in 1..Len(p.xs) |-> <<>>],
                cache |-> [i \in 1..Len(p.xs) |-> <<>>],
                dual |-> -FX, dropped |-> FALSE, iters |-> 0, total |-> 0,
                stop |-> FALSE, conv |-> FALSE, nonew |-> FALSE,
                idle |-> <<>>, hist |-> <<>>, seenw |-> {VZero(SizeJF(p.m))}]
Clauses(p, s, e) ==
    CASE e.ev = "begin" -> Need("certificate", s.cert /\ s.hi - s.lo <= 200)
      [] e.ev = "find"  -> IF p.alg = "1" THEN Find1(p, s, e) ELSE FindN(p, s, e)
      [] e.ev = "iter"  -> IF p.alg = "1" THEN Iter1(p, s, e) ELSE IterN(p, s, e)
      [] e.ev = "end"   -> IF p.alg = "1" THEN End1(p, s, e) ELSE EndN(p, s, e)
      [] e.ev = "restart" -> {}
      [] e.ev = "risk"  -> Need("risk-near-optimum", Risk(p, s.tab, e.w) <= s.hi + CMul(p, N(p) * p.tol) + Tol)
      [] e.ev = "stop"  -> IF p.alg = "1" THEN Stop1(p, s, e) ELSE StopN(p, s, e)
      \* a run that was interrupted and then resumed
      [] e.ev = "resumed" -> Need("resumed-run-near-optimum",
                                  Risk(p, s.tab, e.w) <= s.hi + CMul(p, N(p) * e.tol) + Tol)
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] e.ev = "exception" -> {"raised"}
      [] OTHER -> {"unknown-event"}
\* the states an interrupted run may stop in
Past(p, s, e) == IF ~p.stops THEN s
                 ELSE IF e.ev = "iter"
                 THEN [s EXCEPT !.hist = Append(@, [w |-> e.w, dual |-> e.dual, cons |-> e.cons]),
                                !.seenw = @ \cup {e.w}]
                 ELSE IF e.ev = "find" THEN [s EXCEPT !.seenw = @ \cup Range(e.ws)] ELSE s
Post(p, s0, e) == LET s == Past(p, s0, e) IN
    CASE e.ev = "find" -> [s EXCEPT !.pend = e.ans, !.pw = e.ws, !.exact = e.exact]
      [] e.ev = "iter" ->
           IF p.alg = "1"
           THEN [s EXCEPT !.pend = <<>>, !.w = e.w, !.cons = e.cons, !.cache = e.cache,
                          !.dual = e.dual, !.dropped = Len(e.cons) < Len(s.cons) + 1,
                          !.idle = LET all == Append(s.cons, e.new)
                                   IN Keeps(all, Idle1(p, s, e.w, all), e.cons),
                          !.iters = @ + 1, !.total = @ + 1]
           ELSE LET gained == GainN(p, s, e)
                    cv == s.iters > 1 /\ e.dual - s.dual < p.tol - 2
                IN [s EXCEPT !.pend = <<>>, !.w = e.w, !.cons = e.cons, !.dual = e.dual,
                             !.idle = IdleN(p, s, e.w, e.cons),
                             !.dropped = DropN(s, e), !.iters = @ + 1, !.total = @ + 1,
                             !.nonew = (gained = {}), !.conv = (s.iters > 1 /\ e.dual - s.dual < p.tol + 2),
                             !.stop = ~p.switch /\ (cv \/ (gained = {} /\ ~DropN(s, e)))]
      \* fit is called again: what is kept is said by the event
      [] e.ev = "restart" ->
           LET z == IF e.mode = "warm" THEN [s EXCEPT !.pend = <<>>, !.iters = 0, !.stop = FALSE, !.dropped = TRUE,
                                                         !.idle = <<>>]
                    ELSE [s EXCEPT !.pend = <<>>, !.w = VZero(SizeJF(p.m)), !.dropped = TRUE,
                                   !.cons = << [d |-> VZero(SizeJF(p.m)), l |-> 0] >>, !.iters = 0,
                                   !.idle = <<>>]
           IN [z EXCEPT !.total = @ + 1]
      [] OTHER -> s

Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = Start(P(t))
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(P(t), st, e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
              /\ st' = Post(P(t), st, e)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
