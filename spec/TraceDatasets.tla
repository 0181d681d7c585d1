---------------------------- MODULE TraceDatasets ----------------------------
(* Recorded calls of the data set generators and loaders.                     *)
EXTENDS Datasets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Need(name, ok) == IF ok THEN {} ELSE {name}
FX == 65536
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE Tot(_, _)
Tot(s, k) == IF k = 0 THEN 0 ELSE Abs(s[k]) \div 1024 + Tot(s, k - 1)

ShapeClauses(e) ==
    LET p == e.p
        n == e.n
        ok == Len(e.Y) = n /\ Len(e.X) = n /\ \A i \in 1..n : GridOK(e.Y[i], p.size, p.size) /\ GridOK(e.X[i], p.size, p.size)
    IN Need("integer-labels", e.yint)
       \cup Need("shape", ok)
       \cup (IF ~ok THEN {} ELSE
             Need("labels-of-task", \A i \in 1..n : \A r, c \in 1..p.size : e.Y[i][r][c] \in 0..(States(e.g, p) - 1))
             \cup Need("labeling-is-painting", \A i \in 1..n : Painted(e.g, p, e.Y[i]))
             \cup Need("input-encodes", \A i \in 1..n : Encoded(e.g, p, e.X[i]))
             \cup Need("input-agrees", \A i \in 1..n : Cardinality(Wrong(e.g, p, e.X[i], e.Y[i])) <= e.noise))
\* X0: without noise; r1, r2: what noise of size 1 and 2 (times noise) added, same seed
PatternClauses(e) ==
    LET H == PatH(e.g, e.p)
        W == PatW(e.g, e.p)
        ok == Len(e.Y) = e.n /\ Len(e.X0) = e.n /\ \A i \in 1..e.n : GridOK(e.Y[i], H, W) /\ GridOK(e.X0[i], H, W)
        m == Len(e.r1)
    IN Need("integer-labels", e.yint)
       \cup Need("shape", ok)
       \cup (IF ~ok THEN {} ELSE
             Need("labels-are-pattern", \A i \in 1..e.n : \A r \in 0..(H - 1), c \in 0..(W - 1) : At(e.Y[i], r, c) = Pattern(e.g, e.p, r, c))
             \cup Need("input-is-mean", \A i \in 1..e.n : \A r \in 0..(H - 1), c \in 0..(W - 1) : At(e.X0[i], r, c) = Mean(e.g, At(e.Y[i], r, c)))
             \cup Need("noise-scales", Len(e.r2) = m /\ \A k \in 1..m : Near(e.r1[k], e.r2[k], 8))
             \cup Need("noise-size", m = 0 \/ (/\ \A k \in 1..m : Abs(e.r1[k]) <= 6 * FX
                                               /\ Tot(e.r1, m) \div m \in 40..65)))
\* image of a word of letters with 16 x 8 pixels each
LetterClauses(e) == Need("images", Len(e.img) = 16 /\ \A r \in 1..16 : /\ Len(e.img[r]) = 8 * Len(e.word)
                            /\ \A c \in 0..(8 * Len(e.word) - 1) : e.img[r][c + 1] = e.word[(c \div 8) + 1][(r - 1) * 8 + (c % 8) + 1])

VARIABLES t, l
Clauses(e) ==
    CASE e.ev = "exception" -> {"raised"}
      [] e.ev = "shapes"  -> ShapeClauses(e)
      [] e.ev = "pattern" -> PatternClauses(e)
      [] e.ev = "letters" -> LetterClauses(e)
      [] e.ev = "fact"  -> Need(e.name, e.ok)
      [] OTHER -> {"unknown-event"}
Init == t \in DOMAIN Traces /\ l = 0
Step == /\ l < Len(Traces[t].evs)
        /\ l' = l + 1
        /\ t' = t
        /\ LET bad == Clauses(Traces[t].evs[l + 1])
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
Spec == Init /\ [][Step]_<<t, l>>
==============================================================================
