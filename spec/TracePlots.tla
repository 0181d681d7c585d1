------------------------------ MODULE TracePlots ------------------------------
(* What plot_learning drew for real learners, and plot_grid for real grids.    *)
(* Values are scaled integers; a line matches if it is off by rounding only.   *)
EXTENDS Plots, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
Close(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in -2..2
Matches(got, want) == /\ got.panel = want.panel
                      /\ Close(got.ys, want.ys)
                      /\ Len(got.xs) = Len(got.ys)
                      /\ want.fixed => Close(got.xs, want.xs)
\* iterations are counted in whole numbers, times are scaled
Scaled(e) == [i \in DOMAIN Lines(e.s, e.time) |->
                LET q == Lines(e.s, e.time)[i]
                IN IF e.time /\ e.s.fam # "perc" THEN q ELSE [q EXCEPT !.xs = [j \in DOMAIN q.xs |-> e.unit * q.xs[j]]]]
PlotClauses(e) ==
    LET want == Scaled(e)
        n(S, q) == Cardinality({i \in DOMAIN S : Matches(S[i], q)})
    IN Need("panels", e.panels = Panels(e.s))
       \cup Need("number-of-lines", Len(e.lines) = Len(want))
       \cup Need("line-missing", \A i \in DOMAIN want : \E j \in DOMAIN e.lines : Matches(e.lines[j], want[i]))
       \cup Need("line-extra", \A j \in DOMAIN e.lines : \E i \in DOMAIN want : Matches(e.lines[j], want[i]))
       \cup Need("shown", e.shown)
       \cup (IF e.s.fam = "perc" THEN {}
             ELSE Need("iterations", e.iterations = Len(e.s.obj))
                  \cup Need("objective", e.objective - e.s.obj[Len(e.s.obj)] \in -2..2)
                  \cup (IF e.s.fam = "1" /\ Runs(e.s) # <<>>
                        THEN Need("gap", e.gap - (e.s.prim[Runs(e.s)[Len(Runs(e.s))]] - e.s.obj[Len(e.s.obj)]) \in -3..3)
                        ELSE {}))
\* a grid: its values where they belong, and a line between any two neighbouring cells
GridClauses(e) ==
    Need("image", e.image = e.x)
    \cup Need("vertical-lines", e.xticks = [i \in 1..(Len(e.x[1]) - 1) |-> 2 * i - 1])
    \cup Need("horizontal-lines", e.yticks = [i \in 1..(Len(e.x) - 1) |-> 2 * i - 1])
    \cup Need("grid-on", e.on)
    \cup Need("axes", e.same)
VARIABLES t, l
Clauses(e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "plot"  -> PlotClauses(e)
      [] e.ev = "grid"  -> GridClauses(e)
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
Init == t \in DOMAIN Traces /\ l = 0
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET bad == Clauses(Traces[t].evs[l + 1])
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l>>
==============================================================================
