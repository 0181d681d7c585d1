------------------------------- MODULE ParMap -------------------------------
(* Evaluating the samples of a batch with several jobs: jobs are dispatched   *)
(* in sample order, at most W run at the same time, and they finish in any    *)
(* order.  A learner waits for all results of a batch, matches result k with  *)
(* sample k and only then changes the weights.  A job works on the weights    *)
(* (version) it was handed when it was dispatched.                            *)
(*   Matched        the value used for sample k is f(k, weights of the round) *)
(*   OneVersion     all jobs of a round see the same weights                  *)
(* Every way to finish the jobs is printed as the sequence of positions among *)
(* the running jobs (oldest first); the driver replays each of them into the  *)
(* real code through a joblib backend.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Ws, Rounds
VARIABLES n, w, round, next, running, res, picks, used
vars == <<n, w, round, next, running, res, picks, used>>

F(k, v) == <<k, v>>                      \* the result for sample k with weights v
Free == [k \in 1..n |-> <<>>]
Init == /\ n \in 1..MaxN /\ w \in Ws
        /\ round = 1 /\ next = 1 /\ running = <<>>
        /\ res = [k \in 1..n |-> <<>>] /\ picks = <<>> /\ used = <<>>
\* the weights are those of the round, captured at dispatch
Dispatch == /\ round <= Rounds /\ next <= n /\ Len(running) < w
            /\ running' = Append(running, [job |-> next, ver |-> round])
            /\ next' = next + 1
            /\ UNCHANGED <<n, w, round, res, picks, used>>
\* dispatching is immediate: a job finishes only when no other can be started
Finish == /\ Len(running) > 0 /\ (next > n \/ Len(running) = w)
          /\ \E i \in DOMAIN running :
                /\ res' = [res EXCEPT ![running[i].job] = F(running[i].job, running[i].ver)]
                /\ running' = SubSeq(running, 1, i - 1) \o SubSeq(running, i + 1, Len(running))
                /\ picks' = Append(picks, i)
          /\ UNCHANGED <<n, w, round, next, used>>
Collected == running = <<>> /\ next > n
Update == /\ Collected /\ round <= Rounds
          /\ used' = Append(used, res)
          /\ IF round = 1 THEN PrintT(<<"SCHED", n, w, picks>>) ELSE TRUE
          /\ round' = round + 1 /\ next' = 1 /\ res' = Free /\ picks' = <<>>
          /\ UNCHANGED <<n, w, running>>
Next == Dispatch \/ Finish \/ Update \/ (round > Rounds /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Matched == \A r \in DOMAIN used : \A k \in 1..n : used[r][k] = F(k, r)
OneVersion == \A i \in DOMAIN running : running[i].ver = round
Window == Len(running) <= w
Terminates == <>(round > Rounds)
=============================================================================
