--------------------------- MODULE ObservableImpl ---------------------------
(* Implementation-level model of observable: every operation runs under one   *)
(* mutex, assignments keep it while the callback runs.                        *)
(* Checked: refinement of Observable (C15).  Bug # "none": a faulty variant.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxOps, Values, Bug

VARIABLES value, enabled, mtx, pc, cur, cnt
vars == <<value, enabled, mtx, pc, cur, cnt>>
\* values: key * 1000 + aux; equality looks at the key only
Key(v) == v \div 1000
None == [op |-> "", v |-> 0, r |-> 0, x |-> 0, old |-> 0]

Init == /\ value = 1000 /\ enabled = 1 /\ mtx = 0
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> None] /\ cnt = [t \in Threads |-> 0]
Pc(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t] = "idle" /\ cnt[t] < MaxOps /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ Pc(t, "lock")
           /\ \/ \E v \in Values, x \in {0, 1} : cur' = [cur EXCEPT ![t] = [None EXCEPT !.op = "set", !.v = v, !.x = x]]
              \/ \E o \in {"get", "isen"} : cur' = [cur EXCEPT ![t] = [None EXCEPT !.op = o]]
              \/ \E b \in {0, 1} : cur' = [cur EXCEPT ![t] = [None EXCEPT !.op = "en", !.v = b]]
           /\ UNCHANGED <<value, enabled, mtx>>
Lock(t) ==
  /\ pc[t] = "lock" /\ mtx = 0
  /\ LET o == cur[t] IN
     CASE o.op = "get"  -> Pc(t, "ret") /\ cur' = [cur EXCEPT ![t].r = value] /\ UNCHANGED <<value, enabled, mtx>>
       [] o.op = "isen" -> Pc(t, "ret") /\ cur' = [cur EXCEPT ![t].r = enabled] /\ UNCHANGED <<value, enabled, mtx>>
       [] o.op = "en"   -> Pc(t, "ret") /\ enabled' = o.v /\ UNCHANGED <<cur, value, mtx>>
       [] o.op = "set" /\ Key(o.v) = Key(value) /\ Bug # "notify_equal" -> Pc(t, "ret") /\ UNCHANGED <<cur, value, enabled, mtx>>
       [] OTHER -> /\ value' = o.v
                   /\ IF enabled = 1 THEN Pc(t, "cb") /\ mtx' = (IF Bug = "unlock_early" THEN 0 ELSE t) /\ UNCHANGED cur
                                     ELSE Pc(t, "ret") /\ UNCHANGED <<mtx, cur>>
                   /\ UNCHANGED enabled
  /\ UNCHANGED cnt
\* the callback is called with the stored value
Enter(t) == /\ pc[t] = "cb" /\ Pc(t, "in") /\ cur' = [cur EXCEPT ![t].old = cur[t].v]
            /\ UNCHANGED <<value, enabled, mtx, cnt>>
Leave(t) == /\ pc[t] = "in" /\ Pc(t, "ret") /\ mtx' = IF mtx = t /\ ~(Bug = "throw_keeps_lock" /\ cur[t].x = 1) THEN 0 ELSE mtx
            /\ cur' = [cur EXCEPT ![t].r = cur[t].x] /\ UNCHANGED <<value, enabled, cnt>>
Ret(t) == /\ pc[t] = "ret" /\ Pc(t, "idle") /\ cur' = [cur EXCEPT ![t] = None] /\ UNCHANGED <<value, enabled, mtx, cnt>>
Next == \E t \in Threads : Call(t) \/ Lock(t) \/ Enter(t) \/ Leave(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars

InCb == {t \in Threads : pc[t] \in {"cb", "in"}}
absPend == [t \in {u \in Threads : pc[u] # "idle"} |->
              [op |-> cur[t].op, v |-> cur[t].v, x |-> cur[t].x, d |-> pc[t] # "lock", r |-> cur[t].r, n |-> pc[t] \in {"cb", "in"}]]
\* with the mutex held there is at most one notification outstanding
absOwed == IF InCb = {} THEN <<>>
           ELSE LET f == IF \E t \in InCb : pc[t] = "in" THEN CHOOSE t \in InCb : pc[t] = "in" ELSE CHOOSE t \in InCb : TRUE
                IN <<[t |-> f, v |-> cur[f].v]>>
absCbt == IF \E t \in Threads : pc[t] = "in" THEN (CHOOSE t \in Threads : pc[t] = "in") + 1 ELSE 0
A == INSTANCE Observable WITH val <- value, en <- enabled, owed <- absOwed, cbt <- absCbt, pend <- absPend
AbsNext == \/ A!Internal
           \/ \E t \in Threads : \/ pc[t] = "idle" /\ pc'[t] # "idle" /\ A!Call(t, cur'[t].op, cur'[t].v, cur'[t].x)
                                 \/ pc[t] = "ret" /\ A!Ret(t, cur[t].op, cur[t].r)
                                 \/ A!Begin(t, cur'[t].old) \/ A!End(t)
Refines == A!PInit(1000) /\ [][AbsNext]_(A!pvars)
Inv == A!TypeInv /\ Cardinality({t \in Threads : pc[t] = "in"}) <= 1
Quiescent == \A t \in Threads : pc[t] \in {"idle", "in"} \/ (pc[t] = "lock" /\ mtx # 0)
QuietOk == Quiescent => A!Quiet
=============================================================================
