------------------------ MODULE BlockingQueueImpl ------------------------
(* Implementation-level model of blocking_queue: one mutex, two condition    *)
(* variables, wake-ups sent after the mutex has been released and only when   *)
(* the queue has just become non-empty / non-full.  A critical section is one *)
(* step.  Every thread performs up to MaxOps operations chosen freely from    *)
(* Ops, so one run of TLC covers all programs within the bounds; waits may    *)
(* also wake spuriously.                                                      *)
(*                                                                            *)
(* Checked: the model refines BoundedFifo (C01), and whenever no thread can   *)
(* move every blocked thread is one BoundedFifo allows to be blocked (C02).   *)
(* Bug # "none" selects a faulty variant that the properties must reject.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Threads, Ops, MaxOps, Capacity, Bug, Spurious

VARIABLES items, pc, cur, cnt, waitPush, waitPop, sent, got
vars == <<items, pc, cur, cnt, waitPush, waitPop, sent, got>>

Cap == IF Capacity = 0 THEN 1 ELSE Capacity
None == [op |-> "", v |-> 0]
IsPush(o) == o \in {"push", "pushm", "trypush", "trypushm"}

Init == /\ items = <<>> /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> None]
        /\ cnt = [t \in Threads |-> 0] /\ waitPush = {} /\ waitPop = {} /\ sent = <<>> /\ got = <<>>

Call(t) == /\ pc[t] = "idle" /\ cnt[t] < MaxOps
           /\ \E o \in Ops :
                /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
                /\ cur' = [cur EXCEPT ![t] = [op |-> o, v |-> IF IsPush(o) THEN 100 * t + cnt'[t] ELSE 0]]
           /\ pc' = [pc EXCEPT ![t] = "lock"]
           /\ UNCHANGED <<items, waitPush, waitPop, sent, got>>

Goto(t, p, r) == /\ pc' = [pc EXCEPT ![t] = p]
                 /\ cur' = [cur EXCEPT ![t].v = r]

Push(t, r) == LET nx == Append(items, cur[t].v)
                  first == CASE Bug = "late_size"   -> TRUE        \* decided after unlocking, see Notify
                             [] Bug = "notify_always" -> TRUE
                             [] OTHER -> Len(nx) = 1
              IN /\ items' = nx /\ sent' = Append(sent, cur[t].v)
                 /\ Goto(t, IF first THEN "notifyPop" ELSE "ret", r)
                 /\ UNCHANGED <<waitPush, waitPop, got>>
Pop(t, r) == LET nx == Tail(items)
                 room == CASE Bug = "notify_at_cap" -> Len(nx) = Cap
                           [] Bug = "notify_always" -> TRUE
                           [] OTHER -> Len(nx) = Cap - 1
             IN /\ items' = nx /\ got' = Append(got, Head(items))
                /\ Goto(t, IF room THEN "notifyPush" ELSE "ret", r)
                /\ UNCHANGED <<waitPush, waitPop, sent>>
Return(t, r) == Goto(t, "ret", r) /\ UNCHANGED <<items, waitPush, waitPop, sent, got>>
Full == IF Bug = "capacity" THEN Len(items) > Cap ELSE Len(items) >= Cap

\* one critical section; pc "recheck": woken inside wait
Crit(t) ==
  /\ pc[t] \in {"lock", "recheck"}
  /\ LET o == cur[t].op
         skip == Bug = "no_recheck" /\ pc[t] = "recheck"
     IN CASE o \in {"push", "pushm"} ->
               IF Full /\ ~skip THEN /\ waitPush' = waitPush \cup {t} /\ pc' = [pc EXCEPT ![t] = "waiting"]
                                     /\ UNCHANGED <<items, cur, waitPop, sent, got>>
                                ELSE Push(t, 0)
          [] o \in {"trypush", "trypushm"} -> IF Full THEN Return(t, 0) ELSE Push(t, 1)
          [] o = "pop" -> IF items = <<>>
                          THEN /\ waitPop' = waitPop \cup {t} /\ pc' = [pc EXCEPT ![t] = "waiting"]
                               /\ UNCHANGED <<items, cur, waitPush, sent, got>>
                          ELSE Pop(t, Head(items))
          [] o = "trypop" -> IF items = <<>> THEN Return(t, 0) ELSE Pop(t, Head(items))
          [] o = "size" -> Return(t, Len(items))
          [] o = "cap" -> Return(t, Cap)
  /\ UNCHANGED cnt

Wake(S) == pc' = [t \in Threads |-> IF t \in S THEN "recheck" ELSE pc[t]]
One(W) == {{t} : t \in W} \cup (IF W = {} THEN {{}} ELSE {})
NotifyPop(t) ==
  /\ pc[t] = "notifyPop"
  /\ \E S \in (CASE Bug \in {"notify_one", "notify_always"} -> One(waitPop)
                 [] Bug = "late_size" /\ Len(items) # 1 -> {{}}
                 [] Bug = "no_notify" -> {{}}
                 [] OTHER -> {waitPop}) :
        /\ waitPop' = waitPop \ S
        /\ pc' = [u \in Threads |-> IF u \in S THEN "recheck" ELSE IF u = t THEN "ret" ELSE pc[u]]
  /\ UNCHANGED <<items, cur, cnt, waitPush, sent, got>>
NotifyPush(t) ==
  /\ pc[t] = "notifyPush"
  /\ \E S \in (IF Bug \in {"notify_one", "notify_always"} THEN One(waitPush) ELSE {waitPush}) :
        /\ waitPush' = waitPush \ S
        /\ pc' = [u \in Threads |-> IF u \in S THEN "recheck" ELSE IF u = t THEN "ret" ELSE pc[u]]
  /\ UNCHANGED <<items, cur, cnt, waitPop, sent, got>>
SpuriousWake(t) ==
  /\ Spurious /\ pc[t] = "waiting"
  /\ waitPush' = waitPush \ {t} /\ waitPop' = waitPop \ {t} /\ pc' = [pc EXCEPT ![t] = "recheck"]
  /\ UNCHANGED <<items, cur, cnt, sent, got>>
Ret(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ cur' = [cur EXCEPT ![t] = None]
          /\ UNCHANGED <<items, cnt, waitPush, waitPop, sent, got>>

Step(t) == Crit(t) \/ NotifyPop(t) \/ NotifyPush(t) \/ Ret(t)
Next == \E t \in Threads : Call(t) \/ Step(t) \/ SpuriousWake(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

\* ---- refinement -------------------------------------------------------------
absPend == [t \in Threads |-> [op |-> cur[t].op, v |-> cur[t].v,
                               st |-> CASE pc[t] = "idle" -> "idle"
                                        [] pc[t] \in {"lock", "recheck", "waiting"} -> "called"
                                        [] OTHER -> "done"]]
A == INSTANCE BoundedFifo WITH q <- items, cap <- Cap, pend <- absPend
AbsNext == \E t \in Threads :
              \/ A!Lin(t)
              \/ \E o \in Ops : A!Call(t, o, IF IsPush(o) THEN 100 * t + cnt[t] + 1 ELSE 0)
              \/ absPend[t].st = "done" /\ A!Ret(t, absPend[t].op, absPend[t].v)
Refines == A!InitQ(Capacity, Threads) /\ [][AbsNext]_(A!vars)

\* ---- properties -------------------------------------------------------------
Inv == A!Bounded /\ A!NoDup /\ waitPush \cap waitPop = {}
\* everything delivered is a prefix of what was sent; the rest is in the queue
Fifo == sent = got \o items
Quiescent == \A t \in Threads : pc[t] \in {"idle", "waiting"}
NoLostWakeup == Quiescent => A!Quiet
\* the same as a liveness property: a thread inside an operation that can take effect does not stay there
Progress == \A t \in Threads : (absPend[t].st = "called") ~> (absPend[t].st # "called" \/ Quiescent)
View == <<items, pc, cur, cnt, waitPush, waitPop>>
=============================================================================
