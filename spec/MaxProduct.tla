------------------------------ MODULE MaxProduct ------------------------------
(* The algorithms behind the exact inference methods, as a transition system:
   dispatch on the edge list (ordered chain / forest / neither), Viterbi on
   chains, leaf-to-root messages and root-to-leaf decoding on forests.  The
   invariants say what the property file says: on acyclic graphs the decoded
   labeling is a maximizer of the energy, whatever the ties, the edge
   orientation, isolated nodes or the order in which ready nodes are processed,
   and the dispatch takes a graph for acyclic exactly if it is.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

N == 3
S == 2
Nodes == 0 .. N - 1
Labels == 0 .. S - 1

EdgeLists == { <<>>, <<<<0, 1>>>>, <<<<2, 0>>>>, <<<<0, 1>>, <<1, 2>>>>, <<<<1, 2>>, <<0, 1>>>>,
               <<<<1, 0>>, <<1, 2>>>>, <<<<2, 0>>, <<2, 1>>>>, <<<<0, 1>>, <<1, 0>>>>,
               <<<<0, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 2>>, <<2, 0>>>> }
\* pairwise potentials <<00, 01, 10, 11>>: flat, asymmetric, attractive, repulsive
PW == { <<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 0, 1>>, <<-1, 0, 1, -1>> }
Un == { <<0, 0>>, <<0, 1>>, <<1, 0>> }

VARIABLES edges, un, pw, kind, pc, i, msg, back, parent, order, done, y
vars == <<edges, un, pw, kind, pc, i, msg, back, parent, order, done, y>>

P(e, a, b) == pw[e][2 * a + b + 1]
U(v, a) == un[v][a + 1]
Zero == [v \in Nodes |-> [a \in Labels |-> 0]]

Energy(lab) == FoldLeft(LAMBDA s, v: s + U(v, lab[v]), 0, <<0, 1, 2>>) +
               FoldLeft(LAMBDA s, e: s + P(e, lab[edges[e][1]], lab[edges[e][2]]), 0,
                        [e \in 1 .. Len(edges) |-> e])
Labelings == [Nodes -> Labels]
Best == Max({Energy(l) : l \in Labelings})

IsChain == Len(edges) = N - 1 /\ \A e \in 1 .. N - 1: edges[e] = <<e - 1, e>>

\* union-find flavoured: an edge list is acyclic iff it can be removed by
\* repeatedly taking an edge one of whose ends touches no other edge
RECURSIVE Prune(_)
Prune(es) == LET leaf == {e \in es: \E v \in {edges[e][1], edges[e][2]}:
                              \A f \in es \ {e}: v \notin {edges[f][1], edges[f][2]}}
             IN  IF leaf = {} THEN es ELSE Prune(es \ leaf)
Acyclic == Prune(1 .. Len(edges)) = {}

Init ==
  /\ edges \in EdgeLists
  /\ un \in [Nodes -> Un]
  /\ pw \in [1 .. Len(edges) -> PW]
  /\ kind = "?" /\ pc = "dispatch" /\ i = 0
  /\ msg = Zero /\ back = Zero
  /\ parent = [v \in Nodes |-> <<-1, 0>>]
  /\ order = <<>> /\ done = {} /\ y = [v \in Nodes |-> -1]

Dispatch ==
  /\ pc = "dispatch"
  /\ kind' = IF IsChain THEN "chain" ELSE "search"
  /\ pc' = IF IsChain THEN "forward" ELSE "search"
  /\ UNCHANGED <<edges, un, pw, i, msg, back, parent, order, done, y>>

\* ------------------------------ chain
\* msg[v][b] best score of a prefix ending in state b at v, back the predecessor
Forward ==
  /\ pc = "forward"
  /\ LET sc(b) == {<<(IF i = 0 THEN 0 ELSE msg[i - 1][a] + P(i, a, b)) + U(i, b), a>>: a \in Labels}
         top(b) == CHOOSE p \in sc(b): \A q \in sc(b): p[1] > q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
     IN  /\ msg' = [msg EXCEPT ![i] = [b \in Labels |-> top(b)[1]]]
         /\ back' = [back EXCEPT ![i] = [b \in Labels |-> top(b)[2]]]
  /\ i' = IF i = N - 1 THEN i ELSE i + 1
  /\ pc' = IF i = N - 1 THEN "backward" ELSE pc
  /\ UNCHANGED <<edges, un, pw, kind, parent, order, done, y>>

Backward ==
  /\ pc = "backward"
  /\ LET b == IF i = N - 1
              THEN CHOOSE b \in Labels: \A c \in Labels: msg[i][b] > msg[i][c] \/ (msg[i][b] = msg[i][c] /\ b <= c)
              ELSE back[i + 1][y[i + 1]]
     IN  y' = [y EXCEPT ![i] = b]
  /\ i' = i - 1
  /\ pc' = IF i = 0 THEN "done" ELSE pc
  /\ UNCHANGED <<edges, un, pw, kind, msg, back, parent, order, done>>

\* ------------------------------ forest
Touch(e, v) == v \in {edges[e][1], edges[e][2]}
Other(e, v) == IF edges[e][1] = v THEN edges[e][2] ELSE edges[e][1]
\* pairwise potential of the edge to the parent, oriented (parent, child)
PU(v, a, b) == LET e == parent[v][2] IN
               IF edges[e][1] = parent[v][1] THEN P(e, a, b) ELSE P(e, b, a)

\* breadth first search; an edge that reaches a visited node other than over
\* the edge that was used to get here closes a cycle
Search ==
  /\ pc = "search"
  /\ \/ \E v \in Nodes \ done, e \in 1 .. Len(edges):
          /\ Touch(e, v) /\ Other(e, v) \in done
          /\ order' = Append(order, v) /\ done' = done \cup {v}
          /\ parent' = [parent EXCEPT ![v] = <<Other(e, v), e>>]
     \/ /\ \A v \in Nodes \ done, e \in 1 .. Len(edges): Touch(e, v) => Other(e, v) \notin done
        /\ \E v \in Nodes \ done: /\ \A u \in Nodes \ done: v <= u
                                   /\ order' = Append(order, v) /\ done' = done \cup {v}
                                   /\ UNCHANGED parent
  /\ UNCHANGED <<edges, un, pw, kind, pc, i, msg, back, y>>

Classify ==
  /\ pc = "search" /\ done = Nodes
  /\ LET tree == {parent[v][2] : v \in {v \in Nodes: parent[v][1] # -1}}
     IN  kind' = IF tree = 1 .. Len(edges) THEN "forest" ELSE "loopy"
  /\ pc' = IF kind' = "forest" THEN "up" ELSE "done"
  /\ done' = {}
  /\ UNCHANGED <<edges, un, pw, i, msg, back, parent, order, y>>

Children(v) == {u \in Nodes: parent[u][1] = v}
Up ==
  /\ pc = "up"
  /\ \E v \in Nodes \ done:
       /\ Children(v) \subseteq done
       /\ done' = done \cup {v}
       /\ IF parent[v][1] = -1 THEN UNCHANGED msg
          ELSE LET new == [a \in Labels |-> Max({PU(v, a, b) + U(v, b) + msg[v][b]: b \in Labels})]
                   mx == Max({new[a]: a \in Labels})
               IN  msg' = [msg EXCEPT ![parent[v][1]] = [a \in Labels |-> @[a] + new[a] - mx]]
  /\ pc' = IF done' = Nodes THEN "down" ELSE pc
  /\ UNCHANGED <<edges, un, pw, kind, i, back, parent, order, y>>

Down ==
  /\ pc = "down"
  /\ \E v \in Nodes:
       /\ y[v] = -1
       /\ IF parent[v][1] = -1 THEN TRUE ELSE y[parent[v][1]] # -1
       /\ LET sc == [a \in Labels |-> U(v, a) + msg[v][a] +
                        (IF parent[v][1] = -1 THEN 0 ELSE PU(v, y[parent[v][1]], a))]
          IN  y' = [y EXCEPT ![v] = CHOOSE a \in Labels: \A b \in Labels:
                        sc[a] > sc[b] \/ (sc[a] = sc[b] /\ a <= b)]
  /\ pc' = IF \A v \in Nodes: y'[v] # -1 THEN "done" ELSE pc
  /\ UNCHANGED <<edges, un, pw, kind, i, msg, back, parent, order, done>>

Next == Dispatch \/ Forward \/ Backward \/ Search \/ Classify \/ Up \/ Down
Spec == Init /\ [][Next]_vars

\* ------------------------------ properties
Exact == pc = "done" /\ kind # "loopy" => Energy(y) = Best
Sound == pc \in {"up", "down", "done", "forward", "backward"} => (kind # "loopy" <=> Acyclic)
Legal == pc = "done" /\ kind # "loopy" => y \in Labelings
=============================================================================
