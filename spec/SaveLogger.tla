----------------------------- MODULE SaveLogger -----------------------------
(* The logger that stores a learner while it is trained.  A save is not       *)
(* atomic: it opens (truncates) the file, takes the inference cache off the   *)
(* learner that owns it (the learner itself, or the base learner of a latent  *)
(* one), writes, and puts the cache back; opening and writing can fail, and   *)
(* the failure then propagates to the training loop, which goes on (the       *)
(* caller catches it) with the live learner.                                  *)
(*   LiveKept     whenever no save is under way the live learner has its      *)
(*                cache and the state of the current iteration                *)
(*   NoCache      no complete file holds the cache                            *)
(*   OnSchedule   complete files hold exactly what was due, under the name    *)
(*                that was due: with one name the last due save, with one     *)
(*                name per iteration every due save                           *)
(* Every behaviour is printed as kind, names, period, and the fault of each   *)
(* due save; the driver replays each of them into the real logger.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Periods
Kinds == {"none", "own", "base"}
Faults == {"ok", "open", "dump", "disk"}
FINAL == N + 1                            \* the call with 'final'
VARIABLES kind, each, period, it, pc, live, files, hist
vars == <<kind, each, period, it, pc, live, files, hist>>

Absent == [st |-> "absent", ver |-> -1, cache |-> FALSE]
Name(i) == IF each THEN i ELSE 0
Due(i) == i = FINAL \/ i % period = 0
Has == kind # "none"
Init == /\ kind \in Kinds /\ each \in BOOLEAN /\ period \in Periods
        /\ it = 0 /\ pc = "idle"
        /\ live = [ver |-> 0, cache |-> Has]
        /\ files = [i \in 0..FINAL |-> Absent]
        /\ hist = <<>>
Advance == /\ it' = it + 1
           /\ live' = [live EXCEPT !.ver = IF it + 1 > FINAL THEN @ ELSE it + 1]
           /\ pc' = "idle"
Skip == /\ pc = "idle" /\ it <= FINAL /\ ~Due(it)
        /\ Advance /\ UNCHANGED <<kind, each, period, files, hist>>
Open == /\ pc = "idle" /\ it <= FINAL /\ Due(it)
        /\ \/ /\ pc' = "open" /\ hist' = hist
              /\ files' = [files EXCEPT ![Name(it)] = [Absent EXCEPT !.st = "bad"]]
           \/ /\ pc' = "done" /\ hist' = Append(hist, "open")
              /\ files' = files
        /\ UNCHANGED <<kind, each, period, it, live>>
Detach == /\ pc = "open"
          /\ pc' = "detached"
          /\ live' = [live EXCEPT !.cache = FALSE]
          /\ UNCHANGED <<kind, each, period, it, files, hist>>
Write == /\ pc = "detached"
         /\ pc' = "written"
         /\ \E f \in {"ok", "dump", "disk"} :
               /\ hist' = Append(hist, f)
               /\ files' = IF f # "ok" THEN files
                           ELSE [files EXCEPT ![Name(it)] = [st |-> "ok", ver |-> live.ver, cache |-> live.cache]]
         /\ UNCHANGED <<kind, each, period, it, live>>
Reattach == /\ pc = "written"
            /\ pc' = "done"
            /\ live' = [live EXCEPT !.cache = Has]
            /\ UNCHANGED <<kind, each, period, it, files, hist>>
Return == /\ pc = "done"
          /\ Advance /\ UNCHANGED <<kind, each, period, files, hist>>
End == /\ it > FINAL
       /\ IF pc = "idle" THEN PrintT(<<"SAVES", kind, each, period, hist>>) ELSE TRUE
       /\ pc' = "end"
       /\ UNCHANGED <<kind, each, period, it, live, files, hist>>
Next == Skip \/ Open \/ Detach \/ Write \/ Reattach \/ Return \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LiveKept == pc \in {"idle", "done", "end"} => live.cache = Has /\ (it <= FINAL => live.ver = it)
NoCache == \A i \in 0..FINAL : files[i].st = "ok" => ~files[i].cache
\* the due iterations before the current one, in order, with their faults
DueList == SelectSeq([i \in 1..(FINAL + 1) |-> i - 1], Due)
OnSchedule == pc = "idle" =>
    /\ \A i \in 0..FINAL : files[i].st = "ok" =>
          /\ Due(files[i].ver) /\ (IF each THEN files[i].ver = i ELSE i = 0)
    /\ \A k \in DOMAIN hist : hist[k] = "ok" =>
          IF each THEN files[DueList[k]].ver = DueList[k]
          ELSE (k = Len(hist) \/ \A q \in (k + 1)..Len(hist) : hist[q] = "open") => files[0].ver = DueList[k]
Terminates == <>(pc = "end")
=============================================================================
