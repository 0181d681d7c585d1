----------------------------- MODULE MCLifecycle -----------------------------
(* Every short history, with a learner as it is built next to the abstract    *)
(* one: weights as the list of the steps that made them, a step counter, the  *)
(* learning rate fixed by the last fresh fit. The abstract run determines     *)
(* them (Sound), and copies do not notice (Apart).                            *)
EXTENDS Lifecycle, TLC

CONSTANTS Family, Len3, Cs, Its, Data
VARIABLES s, impl, h
vars == <<s, impl, h>>

Ops == [op : {"fit", "warm", "soft", "cut"}, d : Data] \cup [op : {"setC"}, v : Cs]
       \cup [op : {"setit"}, v : Its] \cup [op : {"clone", "copy", "swap", "predict", "hand"}]

\* ------------------------------------------------------- the learner as built
None == [w |-> <<>>, t |-> 0, lr |-> 0]
RECURSIVE Passes(_, _, _, _, _)
Passes(w, n, t, d, q) == IF n = 0 THEN w ELSE Passes(Append(w, [t |-> t, d |-> d, q |-> q]), n - 1, t + 1, d, q)
Run(i, n, par, d) == [i EXCEPT !.w = Passes(i.w, n, i.t, d, <<par.C, i.lr>>), !.t = i.t + n]
Start(f, i, par) == [w |-> IF f = "keep" THEN i.w ELSE <<>>, t |-> 0, lr |-> par.C]
Do(f, x, i, o) ==
    CASE o.op \in {"fit", "soft"} -> Run(Start(f, i, x.par), x.par.it, x.par, o.d)
      [] o.op = "warm" -> Run(i, x.par.it, x.par, o.d)
      [] o.op = "cut" -> Run(Start(f, i, x.par), 1, x.par, o.d)
      [] OTHER -> i
DoBoth(f, st, im, o) ==
    CASE o.op = "clone" -> [im EXCEPT !.b = None]
      [] o.op = "copy" -> [im EXCEPT !.b = im.a]
      [] o.op = "swap" -> [a |-> im.b, b |-> im.a]
      [] o.op = "hand" -> [im EXCEPT !.b = Run([im.a EXCEPT !.lr = 0], st.b.par.it, st.b.par, LastData(st.a))]
      [] OTHER -> [im EXCEPT !.a = Do(f, st.a, im.a, o)]

\* what the abstract run says about them
RECURSIVE Replay(_, _, _)
Replay(f, run, i) ==
    IF run = <<>> THEN i
    ELSE LET g == Head(run)
             j == IF g.k \in {"fresh", "again"} THEN Run(Start(f, i, g), g.it, g, g.d)
                  ELSE IF g.k = "cut" THEN Run(Start(f, i, g), 1, g, g.d)
                  ELSE Run(i, g.it, g, g.d)
         IN Replay(f, Tail(run), j)
Init == /\ s = [a |-> [on |-> TRUE, par |-> Par(1, 2), run |-> Unfit], b |-> Blank]
        /\ impl = [a |-> None, b |-> None]
        /\ h = <<>>
Next == /\ Len(h) < Len3
        /\ \E o \in Ops :
            /\ Enabled(Family, s, o)
            /\ s' = Apply(Family, s, o)
            /\ impl' = DoBoth(Family, s, impl, o)
            /\ h' = Append(h, IF o.op \in {"fit", "warm", "soft", "cut"} THEN <<o.op, o.d>>
                              ELSE IF o.op \in {"setC", "setit"} THEN <<o.op, o.v>> ELSE <<o.op, 0>>)
            /\ IF Len(h') = Len3 THEN PrintT(<<"LIFE", Family, h'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

Sound == Family \in {"resume", "keep", "fresh"} =>
            /\ s.a.run = Unfit \/ Replay(Family, s.a.run, None) = impl.a
            /\ s.b.run = Unfit \/ Replay(Family, s.b.run, None) = impl.b
\* the optimum depends on nothing but data and parameters
Optimal == Family = "opt" => Len(s.a.run) <= 1
Apart == [][\A o \in {h'[Len(h')]} : o[1] \notin {"clone", "copy", "swap", "hand"} => s'.b = s.b]_vars
==============================================================================
