-------------------------------- MODULE MCPlots --------------------------------
(* Whatever a first fit can have recorded (MCCurves), the plot is well formed.  *)
EXTENDS MCCurves, Plots

Done == pc = "done" /\ fit = 1
\* values are their positions; pass k begins at 10 k, training ends last
State(hs) == [fam |-> fam, every |-> e, each |-> fam # "fwc" \/ chk = 1,
              obj |-> [i \in 1..obj |-> i], prim |-> [i \in 1..prim |-> i],
              loss |-> [i \in 1..Len(loss) |-> i], hit |-> hs, times |-> [i \in 1..obj |-> 10 * i]]
Hits == [1..cached -> BOOLEAN]
WellFormed == Done => \A hs \in Hits, time \in BOOLEAN :
    \A i \in DOMAIN Lines(State(hs), time) :
        LET q == Lines(State(hs), time)[i]
        IN /\ Len(q.xs) = Len(q.ys)
           /\ q.panel \in 1..Panels(State(hs))
           /\ \A j \in 1..(Len(q.xs) - 1) : q.xs[j] <= q.xs[j + 1]
\* a marked primal objective lies on the line of the primal objectives
Marked == (Done /\ fam = "1") => \A hs \in Hits, time \in BOOLEAN :
    LET ls == Lines(State(hs), time)
    IN \A j \in DOMAIN ls[3].xs : \E i \in DOMAIN ls[2].xs : ls[2].xs[i] = ls[3].xs[j] /\ ls[2].ys[i] = ls[3].ys[j]
\* a loss is shown where the objective of its pass is
Together == (Done /\ fam # "perc" /\ loss # <<>> /\ (fam # "fwc" \/ chk = 1)) =>
    \A time \in BOOLEAN :
      LET ls == Lines(State([i \in 1..cached |-> FALSE]), time)
          lo == ls[Len(ls)]
      IN \A j \in DOMAIN lo.xs : lo.xs[j] = ls[1].xs[1 + Every(e, k)[j]]
================================================================================
