------------------------------ MODULE QuitImpl ------------------------------
(* Implementation-level model of quit / wait_for_quit: the callback, if any,  *)
(* runs before a semaphore is released; a waiter acquires it.                 *)
(* Checked: refinement of QuitSignal (C17).  Bug # "none": a faulty variant.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Requesters, Waiters, MaxOps, Bug
VARIABLES cb, sem, pc, cnt
vars == <<cb, sem, pc, cnt>>
All == Requesters \cup Waiters
Init == cb \in {0, 7} /\ sem = 0 /\ pc = [t \in All |-> "idle"] /\ cnt = [t \in All |-> 0]
Pc(t, p) == pc' = [pc EXCEPT ![t] = p]
Install == (\A t \in Requesters : pc[t] = "idle") /\ cb' \in {0, 7} /\ UNCHANGED <<sem, pc, cnt>>
Req(t) ==
  \/ pc[t] = "idle" /\ cnt[t] < MaxOps /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ Pc(t, IF cb = 0 THEN "release" ELSE "notify") /\ UNCHANGED <<cb, sem>>
  \/ pc[t] = "notify" /\ Pc(t, "in") /\ sem' = (IF Bug = "release_first" THEN sem + 1 ELSE sem) /\ UNCHANGED <<cb, cnt>>
  \/ pc[t] = "in" /\ Pc(t, "release") /\ UNCHANGED <<cb, sem, cnt>>
  \/ /\ pc[t] = "release" /\ Pc(t, "done")
     /\ sem' = (CASE Bug = "edge" -> IF \E w \in Waiters : pc[w] = "wait" THEN 1 ELSE sem      \* a release nobody waits for is lost
                  [] Bug = "release_first" -> sem
                  [] Bug = "saturate" -> 1
                  [] OTHER -> sem + 1)
     /\ UNCHANGED <<cb, cnt>>
  \/ pc[t] = "done" /\ Pc(t, "idle") /\ UNCHANGED <<cb, sem, cnt>>
Wait(t) ==
  \/ pc[t] = "idle" /\ cnt[t] < MaxOps /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ Pc(t, "wait") /\ UNCHANGED <<cb, sem>>
  \/ pc[t] = "wait" /\ sem > 0 /\ sem' = sem - 1 /\ Pc(t, "done") /\ UNCHANGED <<cb, cnt>>
  \/ pc[t] = "done" /\ Pc(t, "idle") /\ UNCHANGED <<cb, sem, cnt>>
Next == Install \/ (\E t \in Requesters : Req(t)) \/ (\E t \in Waiters : Wait(t))
Spec == Init /\ [][Next]_vars
absReqs == [t \in {u \in Requesters : pc[u] # "idle"} |-> [st |-> pc[t], msg |-> "q", sig |-> 0]]
absWaits == [t \in {u \in Waiters : pc[u] # "idle"} |-> pc[t] = "done"]
A == INSTANCE QuitSignal WITH cbk <- cb, tokens <- sem, reqs <- absReqs, waits <- absWaits, inst <- TRUE
AbsNext == \/ A!Internal \/ \E k \in {0, 7} : A!Install(k)
           \/ \E t \in Requesters : A!Quit(t, "q", 0) \/ A!Begin(t, cb, "q", 0) \/ A!End(t) \/ A!Done(t)
           \/ \E t \in Waiters : A!Wait(t) \/ A!Waited(t)
Refines == [][AbsNext]_(A!pvars)
Inv == A!TypeInv
Quiescent == (\A t \in Requesters : pc[t] \in {"idle", "in"}) /\ (\A t \in Waiters : pc[t] = "idle" \/ (pc[t] = "wait" /\ sem = 0))
QuietOk == Quiescent => A!Quiet
\* a wait is released only by a completed request, and one that came before is not lost
Starts(X) == LET RECURSIVE Sum(_)
                 Sum(Y) == IF Y = {} THEN 0 ELSE LET y == CHOOSE y \in Y : TRUE IN cnt[y] + Sum(Y \ {y})
             IN Sum(X)
Lost == (Quiescent /\ \E w \in Waiters : pc[w] = "wait") =>
           Starts(Waiters) - Cardinality({w \in Waiters : pc[w] = "wait"}) >= 1 \/ Starts(Requesters) - Cardinality({t \in Requesters : pc[t] = "in"}) <= 0
=============================================================================
