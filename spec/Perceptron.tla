------------------------------ MODULE Perceptron ------------------------------
(* The structured perceptron on every two-class data set over a small grid of   *)
(* features: online and batch updates, predictions at ties arbitrary.           *)
EXTENDS Num
CONSTANTS NS, Feats, MaxEpoch
VARIABLES data,     \* per sample <<features, label 0/1>>
          batch, w, w0, j, ep, loss, mist, done
vars == <<data, batch, w, w0, j, ep, loss, mist, done>>
F == 2
JF(x, y) == IF y = 0 THEN x \o <<0, 0>> ELSE <<0, 0>> \o x
Score(v, x, y) == Dot(v, JF(x, y))
Top(v, x) == {y \in {0, 1} : Score(v, x, y) >= Score(v, x, 1 - y)}
Init == /\ data \in [1..NS -> Feats \X {0, 1}]
        /\ batch \in BOOLEAN
        /\ w = VZero(4) /\ w0 = VZero(4) /\ j = 1 /\ ep = 0 /\ loss = 0
        /\ mist = [i \in 1..NS |-> 0] /\ done = FALSE
Step == /\ ~done /\ ep < MaxEpoch
        /\ \E y \in Top(IF batch THEN w0 ELSE w, data[j][1]) :
             LET bad == y # data[j][2]
                 w1 == IF bad THEN VAdd(w, VSub(JF(data[j][1], data[j][2]), JF(data[j][1], y))) ELSE w
                 last == j = NS
                 tot == loss + B2N(bad)
             IN /\ w' = w1
                /\ mist' = IF bad THEN [mist EXCEPT ![j] = @ + 1] ELSE mist
                /\ j' = IF last THEN 1 ELSE j + 1
                /\ loss' = IF last THEN 0 ELSE tot
                /\ ep' = IF last THEN ep + 1 ELSE ep
                /\ w0' = IF last THEN w1 ELSE w0
                /\ done' = (last /\ tot = 0)
        /\ UNCHANGED <<data, batch>>
Spec == Init /\ [][Step]_vars
D(i) == VSub(JF(data[i][1], data[i][2]), JF(data[i][1], 1 - data[i][2]))
Mistakes == Sum(mist)
\* the weights are the sum of the updates
SumOk == w = VSum([i \in 1..NS |-> VScale(mist[i], D(i))], VZero(4))
\* a finished run predicts every sample right (up to ties)
DoneOk == done => \A i \in 1..NS : Score(w, data[i][1], data[i][2]) >= Score(w, data[i][1], 1 - data[i][2])
\* online: the norm grows by at most R^2 per mistake, and separable data are learned
\* after at most |u|^2 R^2 / margin^2 mistakes
R2 == Max({Dot(D(i), D(i)) : i \in 1..NS})
NormOk == ~batch => Dot(w, w) <= Mistakes * R2
NovikoffOk == ~batch => \A u \in {<<a, b, -a, -b>> : a \in -1..1, b \in -1..1} :
                 LET g == Min({Dot(u, D(i)) : i \in 1..NS})
                 IN g > 0 => Mistakes * g * g <= Dot(u, u) * R2
FDef == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<0, 0>>}
==============================================================================
