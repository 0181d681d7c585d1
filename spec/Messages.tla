------------------------------- MODULE Messages -------------------------------
(* Loopy message passing as a transition system: every edge holds one message
   per direction; a sweep updates, edge after edge, first the message to the
   second end and then the one to the first end, from what the sender has
   received elsewhere, and normalises it.  Undamped, so that messages are
   integers.
   `incoming' is kept incrementally, as in the code; Sums says that it always
   is what the messages say.  Normal says that no message drifts away (with a
   normalisation that is not by the message's own maximum the constants of the
   messages feed each other around directed cycles).  On a graph whose cycles
   carry no interaction (the edges that close them have potentials f(a) + g(b))
   the messages settle within a few sweeps, and an optimum that is unique is
   found; on other loopy graphs only legality is promised.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, MsgStep

CONSTANTS Sweeps, Big

N == 3
Nodes == 0 .. N - 1
Labels == 0 .. 1

EdgeLists == { <<<<0, 1>>, <<1, 2>>, <<2, 0>>>>, <<<<0, 1>>, <<1, 0>>, <<2, 1>>>> } \cup
             IF Big THEN { <<<<1, 0>>, <<2, 1>>, <<0, 2>>>>, <<<<2, 0>>, <<0, 1>>, <<2, 1>>>>,
                           <<<<0, 1>>, <<0, 1>>, <<1, 2>>>>, <<<<0, 1>>, <<1, 0>>, <<0, 1>>>> }
             ELSE {}
\* potentials <<00, 01, 10, 11>>; the first four carry no interaction
Idle == { <<0, 0, 0, 0>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<0, -1, 1, 0>> }
Busy == { <<0, 2, 0, 0>>, <<1, 0, 0, 1>>, <<-1, 0, 1, -1>> }
Un == { <<0, 1>>, <<2, 0>> } \cup IF Big THEN { <<0, 0>> } ELSE {}

VARIABLES edges, un, pw, msg, incoming, e, sweep, moved, pc
vars == <<edges, un, pw, msg, incoming, e, sweep, moved, pc>>

P(k, a, b) == pw[k][2 * a + b + 1]
U(v, a) == un[v][a + 1]
ES == 1 .. Len(edges)

Energy(lab) == FoldLeft(LAMBDA s, v: s + U(v, lab[v]), 0, <<0, 1, 2>>) +
               FoldLeft(LAMBDA s, k: s + P(k, lab[edges[k][1]], lab[edges[k][2]]), 0, [k \in ES |-> k])
Labelings == [Nodes -> Labels]
Best == Max({Energy(l) : l \in Labelings})
Optima == {l \in Labelings: Energy(l) = Best}

\* edges that interact form no cycle
RECURSIVE Prune(_)
Prune(es) == LET leaf == {k \in es: \E v \in {edges[k][1], edges[k][2]}:
                              \A f \in es \ {k}: v \notin {edges[f][1], edges[f][2]}}
             IN  IF leaf = {} THEN es ELSE Prune(es \ leaf)
NoBusyCycle == Prune({k \in ES: pw[k] \in Busy}) = {}

Init ==
  /\ edges \in EdgeLists
  /\ un \in [Nodes -> Un]
  /\ pw \in [1 .. 3 -> Idle \cup Busy]
  /\ msg = [k \in 1 .. 3 |-> [d \in 1 .. 2 |-> [a \in Labels |-> 0]]]
  /\ incoming = [v \in Nodes |-> [a \in Labels |-> 0]]
  /\ e = 1 /\ sweep = 1 /\ moved = FALSE /\ pc = "run"

\* the message over edge k in direction d (1: to the second end) given inc
New(k, d, inc) ==
  LET s == edges[k][d]                                    \* the sender
  IN  StepMsg(2, inc[s], [a \in Labels |-> U(s, a)], msg[k][3 - d],
              LAMBDA a, b: IF d = 1 THEN P(k, a, b) ELSE P(k, b, a), msg[k][d], FALSE)

Update(k, d) ==
  LET new == New(k, d, incoming)
      t == edges[k][3 - d]
  IN  /\ msg' = [msg EXCEPT ![k][d] = new]
      /\ incoming' = [incoming EXCEPT ![t] = [a \in Labels |-> @[a] + new[a] - msg[k][d][a]]]
      /\ moved' = (moved \/ new # msg[k][d])

There == pc = "run" /\ Update(e, 1) /\ pc' = "back" /\ UNCHANGED <<edges, un, pw, e, sweep>>
Back ==
  /\ pc = "back" /\ Update(e, 2)
  /\ pc' = IF e = Len(edges) THEN "swept" ELSE "run"
  /\ e' = IF e = Len(edges) THEN 1 ELSE e + 1
  /\ UNCHANGED <<edges, un, pw, sweep>>
Sweep ==
  /\ pc = "swept"
  /\ pc' = IF ~moved THEN "settled" ELSE IF sweep = Sweeps THEN "limit" ELSE "run"
  /\ sweep' = sweep + 1 /\ moved' = FALSE
  /\ UNCHANGED <<edges, un, pw, msg, incoming, e>>

Next == There \/ Back \/ Sweep
Spec == Init /\ [][Next]_vars

\* ------------------------------ properties
Score(v, a) == incoming[v][a] + U(v, a)
y == [v \in Nodes |-> CHOOSE a \in Labels: \A b \in Labels:
        Score(v, a) > Score(v, b) \/ (Score(v, a) = Score(v, b) /\ a <= b)]

Sums == \A v \in Nodes, a \in Labels:
          incoming[v][a] = FoldLeft(LAMBDA s, k: s + (IF edges[k][2] = v THEN msg[k][1][a] ELSE 0)
                                                   + (IF edges[k][1] = v THEN msg[k][2][a] ELSE 0),
                                    0, [k \in ES |-> k])
Normal == \A k \in ES, d \in 1 .. 2: \/ \A a \in Labels: msg[k][d][a] = 0
                                     \/ Max({msg[k][d][a]: a \in Labels}) = 0
Legal == y \in Labelings
Settles == NoBusyCycle => pc # "limit"
Finds == (pc = "settled" /\ NoBusyCycle /\ Cardinality(Optima) = 1) => y \in Optima
\* the sweeps, computed at once, are the transitions
AtOnce == pc = "swept" => incoming = Received(3, 2, edges, U, P, sweep, FALSE)
\* an update never makes a settled message move again
Stays == pc = "settled" => \A k \in ES, d \in 1 .. 2: New(k, d, incoming) = msg[k][d]
=============================================================================
