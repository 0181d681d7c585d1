------------------------------ MODULE MCValid ------------------------------
(* The stages at which misfits are found: the constructor, initialize, and    *)
(* every operation check what they can know. No operation that goes through   *)
(* reads outside an array or leaves a part of one unread (Fits), and nothing  *)
(* that fits is refused (Accepts). Skip: rules an implementation forgets.     *)
(* The cases, all with at most two fields off, are also what the driver       *)
(* replays into the real code (AllCases).                                     *)
EXTENDS Valid, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Skip, Kinds, Flips          \* Flips: fields changed at once (1 or 2)

(* ------------------------------------------------------------------- form 1 *)
Ops(k) == {<<"build">>, <<"build", "init">>, <<"build", "init", "jf">>, <<"build", "init", "inf">>, <<"build", "jf">>,
           <<"build", "inf">>, <<"build", "aug">>, <<"build", "fit">>, <<"build", "bjf">>,
           <<"build", "binf">>, <<"build", "baug">>, <<"build", "init", "binf">>}
          \cup IF k \in LATENT THEN {<<"build", "lat">>} ELSE {}
\* binary labels are -1 and 1 by definition; the directional grids have their own edge features
Base(k, ops) == [form |-> 1, kind |-> k, N0 |-> 2, F0 |-> 2, FE0 |-> IF k \in EF THEN 2 ELSE 0, N1 |-> 2, F1 |-> 2, FE1 |-> 2,
                 dE |-> 0, dw |-> 0, cw |-> -1, sym |-> <<>>, anti |-> <<>>, meth |-> "known", nb |-> 4, ops |-> ops]
HasInit(c) == \E i \in DOMAIN c.ops : c.ops[i] \in {"init", "fit"}
Alt(c, f) ==
    CASE f = "N0"  -> IF c.kind \in {"binary", "eflnode"} THEN {} ELSE {0, 3}
      [] f = "F0"  -> IF c.kind = "eflnode" THEN {} ELSE {0, 1, 3}
      [] f = "FE0" -> IF c.kind = "edgefeat" THEN {0, 1, 3} ELSE {}
      [] f = "N1"  -> IF c.kind = "binary" THEN {} ELSE {1, 3}
      [] f = "F1"  -> {1, 3}
      [] f = "FE1" -> IF c.kind \in EF THEN {1, 3} ELSE {}
      [] f = "dE"  -> IF c.kind \in EF THEN {-1, 1} ELSE {}
      [] f = "dw"  -> {-1, 1, 2, -2}
      [] f = "cw"  -> IF c.kind \in {"graph", "chain", "edgefeat", "multiclass", "lnode", "eflnode"} THEN 1..3 ELSE {}
      [] f = "sym" -> IF c.kind \in EF THEN {<<0>>, <<1>>, <<0, 1>>, <<2>>} ELSE {}
      [] f = "anti" -> IF c.kind \in EF THEN {<<0>>, <<1>>} ELSE {}
      [] f = "meth" -> IF c.kind \in {"multiclass", "binary"} THEN {} ELSE {"unknown"}
      [] f = "nb"  -> IF c.kind \in {"grid", "lgrid"} THEN {8, 6, 0} ELSE IF c.kind \in GRIDS THEN {6} ELSE {}
FIELDS == {"N0", "F0", "FE0", "N1", "F1", "FE1", "dE", "dw", "cw", "sym", "anti", "meth", "nb"}
Flip1(c) == UNION {{[c EXCEPT ![f] = v] : v \in Alt(c, f)} : f \in FIELDS}
\* a model that was told too little needs data before it can be used; labels of the data matter
\* only where they are given, and without initialize a model does not count them
Sensible(c) == /\ (c.N0 = 0 \/ c.F0 = 0 \/ (c.kind \in EF /\ c.FE0 = 0)) => HasInit(c) \/ c.ops = <<"build">>
               /\ (c.N1 # 2 => HasInit(c))
               /\ (c.kind = "binary" => c.ops # <<"build", "init", "jf">>)
Cases1(k) == LET B == {Base(k, o) : o \in Ops(k)}
                 P == B \cup UNION {Flip1(c) : c \in B}
                 Q == IF Flips > 1 THEN P \cup UNION {Flip1(c) : c \in P} ELSE P
             IN {c \in Q : Sensible(c)}
(* ------------------------------------------------------------------- form 2 *)
Ops2 == {<<"build">>, <<"build", "init">>, <<"build", "jf">>, <<"build", "inf">>, <<"build", "aug">>, <<"build", "fit">>}
Base2(ops, tn, a, b, t) ==
    [form |-> 2, kind |-> "typed", T |-> 2, tn |-> tn, tS |-> <<2, 3>>, tF |-> <<1, 2>>, fe |-> "right", cw |-> <<>>,
     meth |-> "known", dN |-> 0, dF |-> <<0, 0>>, dA |-> 0, cols |-> 2, dFE |-> 0, dE |-> 0, none |-> "no", a |-> a, b |-> b,
     src |-> 0, dst |-> 0, t |-> t, lab |-> IF t = 1 THEN 0 ELSE 2, dY |-> 0, dw |-> 0, ops |-> ops]
Alt2(c, f) ==
    CASE f = "tS" -> {<<2>>, <<2, 3, 2>>}
      [] f = "tF" -> {<<1>>, <<1, 2, 1>>}
      [] f = "fe" -> {"shape", "asymmetric"}
      [] f = "cw" -> {<<2, 3>>, <<2>>, <<2, 2>>, <<3, 3>>, <<2, 3, 1>>}
      [] f = "meth" -> {"unknown"}
      [] f = "dN" -> {-1, 1}
      [] f = "dF" -> {<<1, 0>>, <<0, 1>>, <<0, -1>>}
      [] f = "dA" -> {-1, 1}
      [] f = "cols" -> {1, 3}
      [] f = "dFE" -> {-1, 1}
      [] f = "dE" -> {-1, 1}
      [] f = "none" -> {"edges", "features"}
      [] f = "src" -> {-1, c.tn[c.a] - 1, c.tn[c.a]}
      [] f = "dst" -> {-1, c.tn[c.b] - 1, c.tn[c.b], c.tn[c.b] + 1}
      [] f = "lab" -> {Start(c, c.t) - 1, Start(c, c.t) + c.tS[c.t] - 1, Start(c, c.t) + c.tS[c.t]}
      [] f = "dY" -> {-1, 1}
      [] f = "dw" -> {-1, 1}
FIELDS2 == {"tS", "tF", "fe", "cw", "meth", "dN", "dF", "dA", "cols", "dFE", "dE", "none", "src", "dst", "lab", "dY", "dw"}
Flip2(c) == IF Len(c.tS) # 2 THEN {} ELSE UNION {{[c EXCEPT ![f] = v] : v \in Alt2(c, f)} : f \in FIELDS2}
Cases2 == LET B == {Base2(o, tn, a, b, t) : o \in Ops2, tn \in {<<2, 3>>, <<3, 2>>}, a \in 1..2, b \in 1..2, t \in 1..2}
              P == B \cup UNION {Flip2(c) : c \in B}
          IN IF Flips > 1 THEN P \cup UNION {Flip2(c) : c \in P} ELSE P
(* ------------------------------------------------------------------- form 3 *)
Base3(w) == [form |-> 3, kind |-> w, what |-> w, batch |-> 1, jobs |-> 1, how |-> "", s |-> 2, s1 |-> 2, s2 |-> 2, rows |-> -1,
             edges |-> 2]
Cases3 ==
    {[Base3("nslack") EXCEPT !.batch = b] : b \in {-3, -2, -1, 0, 1, 2, 3, 4, 100}}
    \cup {[Base3("subgradient") EXCEPT !.batch = b, !.jobs = j] : b \in {-2, -1, 1, 2, 3, 5}, j \in {1, 2}}
    \cup {[Base3("frankwolfe") EXCEPT !.how = h] : h \in {"perm", "rnd", "seq", "random", ""}}
    \cup {[Base3("perceptron") EXCEPT !.batch = b] : b \in {-3, -2, -1, 0, 1, 2}}
    \cup {[Base3("solver") EXCEPT !.how = h, !.rows = r, !.s1 = a, !.s2 = b] :
            h \in {"ad3", "ad3+", "lp", "max-product", "unary", "nothing", ""}, r \in {-1, 1, 2, 3}, a \in 1..3, b \in 1..3}
    \cup {[Base3("energy") EXCEPT !.rows = r, !.s1 = a, !.s2 = b] : r \in {-1, 1, 2, 3}, a \in 1..3, b \in 1..3}
    \cup {[Base3("edges") EXCEPT !.batch = b] : b \in {-4, 0, 1, 2, 4, 6, 8, 12}}
    \cup {[Base3("perlabel") EXCEPT !.batch = b, !.s = s] : b \in 1..4, s \in 1..4}

AllCases == UNION {Cases1(k) : k \in Kinds} \cup Cases2 \cup Cases3
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(AllCases))

(* ------------------------------------------------------ the stages (form 1) *)
VARIABLES c, at, out
Init == c \in UNION {Cases1(k) : k \in Kinds} /\ at = 0 /\ out = "none"
Next == /\ out # "refused" /\ at < Len(c.ops)
        /\ at' = at + 1
        /\ out' = IF (Depends1(c, c.ops[at + 1]) \cap Rules1(c)) \ Skip # {} THEN "refused" ELSE "result"
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, at, out>>
\* the arrays an operation reads, what is read of each, and how long it is
E == 2
Pairs == IF c.kind \in EF THEN FE(c) * N(c) * N(c) ELSE (N(c) * (N(c) + 1)) \div 2
Size == N(c) * F(c) + Pairs
Read(op) == (IF op \in {"inf", "aug", "lat", "binf", "baug"} THEN {<<"w", Size>>} ELSE {})
            \cup (IF op \in {"inf", "aug", "lat", "jf", "fit", "binf", "baug", "bjf"} THEN {<<"x", F(c)>>} ELSE {})
            \cup (IF op \in {"inf", "aug", "lat", "jf", "fit", "binf", "baug", "bjf"} /\ c.kind \in EF THEN {<<"ef", FE(c)>>, <<"rows", E>>} ELSE {})
            \cup (IF op = "fit" /\ c.cw >= 0 THEN {<<"cw", N(c)>>} ELSE {})
            \cup (IF op = "fit" THEN {<<"labels", N(c)>>} ELSE {})
Long == {<<"w", Size + c.dw>>, <<"x", c.F1>>, <<"ef", c.FE1>>, <<"rows", E + c.dE>>, <<"cw", c.cw>>, <<"labels", c.N1>>}
Fits == out = "result" => Read(c.ops[at]) \subseteq Long
SymFits == out = "result" /\ c.ops[at] \in {"jf", "bjf", "fit"} => \A i \in SetOf(c.sym) \cup SetOf(c.anti) : i < FE(c)
Known == out = "result" /\ c.ops[at] \in {"inf", "aug", "lat", "binf", "baug", "fit"} => c.meth = "known"
Accepts == WellFormed(c) => out # "refused"
Refuses == at = Len(c.ops) /\ out = "result" /\ Skip = {} => ~MustRefuse(c)
=============================================================================
