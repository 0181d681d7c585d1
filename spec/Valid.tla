-------------------------------- MODULE Valid --------------------------------
(* Which models, inputs and parameters fit together.                          *)
(*                                                                            *)
(* A case describes a model (what it is told), data and the operations asked  *)
(* for, by numbers only. Rules(c) are the rules the case breaks, Due(c) those *)
(* which the operations asked for depend on. A case with a broken rule that   *)
(* is due must be refused, a case without a broken rule must be accepted. (A  *)
(* broken rule nothing depends on yet may be refused early.)                  *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(s) == {s[i] : i \in DOMAIN s}
EF     == {"edgefeat", "eflnode"}
GRIDS  == {"grid", "dgrid", "lgrid", "ldgrid"}
LATENT == {"lgraph", "lgrid", "ldgrid", "lnode", "eflnode"}
FLAT   == {"multiclass", "binary", "multilabel"}

(* --------------------------------------------------- models with one type *)
(* N0, F0, FE0: labels, features, edge features the model is told (0: nothing)*)
(* N1, F1, FE1: those of the data; dE: rows of edge features too many; dw:    *)
(* weights too many; cw: length of the class weights (-1: none)               *)
N(c)  == IF c.N0 > 0 THEN c.N0 ELSE c.N1
FE(c) == IF c.FE0 > 0 THEN c.FE0 ELSE c.FE1
F(c)  == IF c.F0 > 0 THEN c.F0 ELSE c.F1
Breaks1(c, r) ==
    CASE r = "features"       -> c.F0 > 0 /\ c.F1 # c.F0
      [] r = "edge-features"  -> c.kind \in EF /\ c.FE0 > 0 /\ c.FE1 # c.FE0
      [] r = "edge-rows"      -> c.kind \in EF /\ c.dE # 0
      [] r = "labels"         -> c.N0 > 0 /\ c.N1 # c.N0
      [] r = "class-weight"   -> c.cw >= 0 /\ c.cw # N(c)
      [] r = "symmetry"       -> SetOf(c.sym) \cap SetOf(c.anti) # {}
      [] r = "symmetry-index" -> \E i \in SetOf(c.sym) \cup SetOf(c.anti) : i >= FE(c)
      [] r = "weights"        -> c.dw # 0
      [] r = "method"         -> c.meth = "unknown" /\ c.kind \notin {"multiclass", "binary"}
      [] r = "neighborhood"   -> c.kind \in GRIDS /\ c.nb \notin {4, 8}
RULES1 == {"features", "edge-features", "edge-rows", "labels", "class-weight", "symmetry", "symmetry-index",
           "weights", "method", "neighborhood"}
Rules1(c) == {r \in RULES1 : Breaks1(c, r)}
\* what the constructor can know
Told(c) == c.N0 > 0 /\ c.F0 > 0 /\ (c.kind = "edgefeat" => c.FE0 > 0)
Depends1(c, op) ==
    CASE op = "build" -> (IF Told(c) THEN {"class-weight"} ELSE {})
                         \cup (IF c.kind = "eflnode" \/ c.FE0 > 0 THEN {"symmetry"} ELSE {})
                         \cup (IF c.kind = "edgefeat" /\ c.FE0 > 0 THEN {"symmetry-index"} ELSE {})
      [] op = "init"  -> {"features", "labels", "class-weight", "symmetry"}
                         \cup (IF c.kind = "edgefeat" THEN {"edge-features", "symmetry-index"} ELSE {})
      [] op \in {"inf", "aug", "lat", "binf", "baug"} -> {"weights", "features", "edge-features", "edge-rows", "method", "neighborhood"}
      [] op \in {"jf", "bjf"} -> {"features", "edge-features", "edge-rows", "neighborhood", "symmetry-index"}
      [] op = "fit"   -> {"features", "labels", "class-weight", "symmetry", "symmetry-index", "edge-features", "edge-rows",
                          "method", "neighborhood"}

(* ------------------------------------------------------ models with types *)
(* tn: nodes of every type, tS, tF: states and features of every type as told *)
(* (lists may be too long), dF[t]: features too many; src, dst: an edge of    *)
(* the block a,b (1-based); lab: the label of the first node of type t; fe:   *)
(* what is wrong with the matrix of numbers of edge features                  *)
Start(c, t) == LET P[i \in 0..c.T] == IF i = 0 THEN 0 ELSE P[i - 1] + c.tS[i] IN P[t - 1]
Breaks2(c, r) ==
    CASE r = "types"         -> Len(c.tS) # c.T \/ Len(c.tF) # c.T
      [] r = "edge-matrix"   -> c.fe # "right"
      [] r = "class-weight"  -> \/ Len(c.cw) \notin {0, c.T}
                                \/ \E t \in DOMAIN c.cw : t <= Len(c.tS) /\ c.cw[t] # c.tS[t]
      [] r = "method"        -> c.meth = "unknown"
      [] r = "node-arrays"   -> c.dN # 0
      [] r = "features"      -> \E t \in DOMAIN c.dF : c.dF[t] # 0
      [] r = "edge-arrays"   -> c.dA # 0
      [] r = "columns"       -> c.cols # 2
      [] r = "edge-features" -> c.dFE # 0
      [] r = "edge-rows"     -> c.dE # 0
      [] r = "none"          -> c.none # "no"
      [] r = "node-index"    -> c.src \notin 0..(c.tn[c.a] - 1) \/ c.dst \notin 0..(c.tn[c.b] - 1)
      [] r = "label"         -> c.t \in DOMAIN c.tS /\ c.lab \notin Start(c, c.t)..(Start(c, c.t) + c.tS[c.t] - 1)
      [] r = "nodes"         -> c.dY # 0
      [] r = "weights"       -> c.dw # 0
RULES2 == {"types", "edge-matrix", "class-weight", "method", "node-arrays", "features", "edge-arrays", "columns",
           "edge-features", "edge-rows", "none", "node-index", "label", "nodes", "weights"}
Rules2(c) == {r \in RULES2 : Breaks2(c, r)}
XR == {"node-arrays", "features", "edge-arrays", "columns", "edge-features", "edge-rows", "none", "node-index"}
Depends2(c, op) ==
    CASE op = "build" -> {"types", "edge-matrix", "class-weight", "method"}
      [] op \in {"init", "jf", "fit"} -> XR \cup {"label", "nodes"}
      [] op = "inf"   -> XR \cup {"weights"}
      [] op = "aug"   -> XR \cup {"weights", "label", "nodes"}

(* ---------------------------------------------------------------- learners *)
(* and the functions below the models: shapes of potentials, method names     *)
Breaks3(c, r) ==
    CASE r = "batch-size"  -> \/ c.what = "nslack" /\ c.batch # -1 /\ c.batch < 1
                              \/ c.what = "subgradient" /\ c.jobs # 1 /\ c.batch # -2   \* -2: None
      [] r = "sampling"    -> c.what = "frankwolfe" /\ c.how \notin {"perm", "rnd", "seq"}
      [] r = "averaging"   -> c.what = "perceptron" /\ c.batch < -1
      [] r = "method"      -> c.what = "solver" /\ c.how \notin {"ad3", "ad3+", "lp", "max-product", "unary"}
      [] r = "potentials"  -> /\ c.what \in {"solver", "energy"}
                              /\ ~(c.rows \in {-1, c.edges} /\ c.s1 = c.s /\ c.s2 = c.s)
      [] r = "neighborhood" -> c.what = "edges" /\ c.batch \notin {4, 8}
      [] r = "states-per-label" -> c.what = "perlabel" /\ c.batch # c.s
RULES3 == {"batch-size", "sampling", "averaging", "method", "potentials", "neighborhood", "states-per-label"}
Rules3(c) == {r \in RULES3 : Breaks3(c, r)}

(* -------------------------------------------------------------------- cases *)
Rules(c) == CASE c.form = 1 -> Rules1(c) [] c.form = 2 -> Rules2(c) [] c.form = 3 -> Rules3(c)
Due(c) == CASE c.form = 1 -> {r \in Rules1(c) : \E i \in DOMAIN c.ops : r \in Depends1(c, c.ops[i])}
            [] c.form = 2 -> {r \in Rules2(c) : \E i \in DOMAIN c.ops : r \in Depends2(c, c.ops[i])}
            [] c.form = 3 -> Rules3(c) \ (IF c.how = "unary" THEN {"potentials"} ELSE {})
WellFormed(c) == Rules(c) = {}
MustRefuse(c) == Due(c) # {}
==============================================================================
