------------------------------- MODULE TraceBase -------------------------------
(* Results of the reference tools: the plain linear SVM, the downhill simplex   *)
(* learner, exhaustive inference, the primal objective, packing of matrices.    *)
EXTENDS Learn, Baseline, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st
P(tt) == Traces[tt].prob

SvmClauses(e) ==
    LET opt == SvmPrimal(e.D, e.CN, e.CD, e.w, e.b) - SvmDual(e.D, e.al)
    IN Need("certificate", SvmFeasible(e.D, e.CN, e.CD, e.al, 2 * Len(e.D)))
       \cup Need("weights-and-intercept-optimal", opt <= 700)
       \cup Need("decision", \A i \in DOMAIN e.xs : Near(e.dec[i], Decision(e.xs[i], e.w, e.b), 2 + 8 * Len(e.w)))
       \cup Need("predicts-sign", \A i \in DOMAIN e.xs :
              Abs(e.dec[i]) > 10 => e.pred[i] = IF e.dec[i] > 0 THEN 1 ELSE -1)

Flat(p, w) == [q \in 1..SizeJF(p.m) |-> w]
SimplexClauses(p, s, e) ==
    LET r == Risk(p, s.tab, e.w)
    IN Need("no-worse-than-the-start", r <= Min2(Risk(p, s.tab, Flat(p, 0)), Risk(p, s.tab, Flat(p, FX))) + 400)
       \cup Need("minimum", SizeJF(p.m) > 2 \/ r <= s.hi + 1600)
Sc(p, w, v) == Dot(w, v) \div JFScale(p.m)
\* e.w has integer weights (scale FX)
ExhClauses(p, s, e) ==
    IF ~Legal(p.m, p.xs[e.i], e.y) THEN {"legal-answer"}
    ELSE IF e.aug
    THEN Need("exhaustive-most-violated",
              Viol(p.m, e.w, Delta(p.m, p.xs[e.i], p.ys[e.i], e.y), Loss(p.m, p.xs[e.i], p.ys[e.i], e.y))
                >= VMax(p.m, s.tab, e.i, e.w) - 4)
    ELSE Need("exhaustive-maximum",
              Sc(p, e.w, Delta(p.m, p.xs[e.i], p.ys[e.i], e.y)) <= Min({Sc(p, e.w, r.d) : r \in s.tab[e.i]}) + 4)

SymClauses(e) ==
    Need("pack", e.low = IF e.make THEN Lower(Symmetrize(e.M)) ELSE Lower(e.M))
    \cup Need("unpack", e.back = Unpack(e.low, Len(e.M)))

Clauses(p, s, e) ==
    CASE e.ev = "svm"     -> SvmClauses(e)
      [] e.ev = "sym"     -> SymClauses(e)
      [] e.ev = "begin"   -> Need("certificate", s.cert /\ s.hi - s.lo <= 200)
      [] e.ev = "simplex" -> SimplexClauses(p, s, e)
      [] e.ev = "exh"     -> ExhClauses(p, s, e)
      [] e.ev = "primal"  -> Need("objective-is-risk", Near(e.obj, Risk(p, s.tab, e.w), 300))
      [] e.ev = "exception" -> {"raised"}
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ st = IF Traces[t].hasprob THEN Solve(P(t)) ELSE [tab |-> <<>>, lo |-> 0, hi |-> 0, cert |-> TRUE]
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ UNCHANGED <<t, st>>
        /\ LET e == Traces[t].evs[l + 1]
               bad == Clauses(IF Traces[t].hasprob THEN P(t) ELSE <<>>, st, e)
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l, st>>
==============================================================================
