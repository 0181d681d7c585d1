------------------------------- MODULE MsgStep -------------------------------
(* One message of loopy message passing, shared by the transition system of
   Messages and by the check of recorded runs (TraceModels).  Labels are
   0 .. S - 1; inc is what the sender received, u its own potentials, opp the
   message the receiver sent to it, w(a, b) the potentials of sender label a
   with receiver label b, old the message so far.  With `half' the new message
   is the mean of the old and the computed one (damping 1/2), on numbers that
   are scaled such that this is an integer.                                   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

StepMsg(S, inc, u, opp, w(_, _), old, half) ==
  LET L == 0 .. S - 1
      raw == TLCEval([b \in L |-> Max({inc[a] + u[a] - opp[a] + w(a, b): a \in L})])
      top == Max({raw[b]: b \in L})
  IN  TLCEval([b \in L |-> IF half THEN (old[b] + raw[b] - top) \div 2 ELSE raw[b] - top])

\* what the nodes have received after k sweeps over the edges es (node numbers from 0);
\* U(v, a), P(i, a, b): the potentials
Received(N, S, es, U(_, _), P(_, _, _), k, half) ==
  LET L == 0 .. S - 1
      zero == [a \in L |-> 0]
      nE == Len(es)
      One(st, i, d) ==
        LET s == es[i][d]
            t == es[i][3 - d]
            new == StepMsg(S, st.inc[s], [a \in L |-> U(s, a)], st.msg[i][3 - d],
                           LAMBDA a, b: IF d = 1 THEN P(i, a, b) ELSE P(i, b, a), st.msg[i][d], half)
        IN  TLCEval([msg |-> TLCEval([st.msg EXCEPT ![i][d] = new]),
                     inc |-> TLCEval([st.inc EXCEPT ![t] = TLCEval([a \in L |-> @[a] + new[a] - st.msg[i][d][a]])])])
  IN  FoldLeft(LAMBDA st, q: LET i == 1 + ((q - 1) % nE) IN One(One(st, i, 1), i, 2),
               [msg |-> [i \in 1 .. nE |-> [d \in 1 .. 2 |-> zero]], inc |-> [v \in 0 .. N - 1 |-> zero]],
               [q \in 1 .. nE * k |-> q]).inc
=============================================================================
