---------------------------- MODULE SingletonImpl ----------------------------
(* Implementation-level model of the process-wide instances: a guard per type *)
(* ("no", "busy" while one thread constructs, "done"); threads that meet a    *)
(* busy guard wait.  The construction itself takes two steps.                 *)
(* Checked: refinement of Singleton (C19).  Bug # "none": a faulty variant.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Types, MaxOps, Bug

VARIABLES guard, inst, complete, made, pc, ty, got, cnt
vars == <<guard, inst, complete, made, pc, ty, got, cnt>>
\* inst: type -> object it is known as (0: none); complete: objects whose constructor has ended; made: objects so far

Init == /\ guard = [x \in Types |-> "no"] /\ inst = [x \in Types |-> 0] /\ complete = {} /\ made = 0
        /\ pc = [t \in Threads |-> "idle"] /\ ty = [t \in Threads |-> 0] /\ got = [t \in Threads |-> 0] /\ cnt = [t \in Threads |-> 0]
Pc(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t] = "idle" /\ cnt[t] < MaxOps /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ Pc(t, "test")
           /\ \E x \in Types : ty' = [ty EXCEPT ![t] = x]
           /\ UNCHANGED <<guard, inst, complete, made, got>>
\* the guard is tested and taken in one step
Test(t) ==
  /\ pc[t] = "test"
  /\ LET x == ty[t]  g == guard[x] IN
     \/ g = "done" /\ Pc(t, "ret") /\ got' = [got EXCEPT ![t] = inst[x]] /\ UNCHANGED guard
     \/ g = "no" /\ Bug # "split" /\ guard' = [guard EXCEPT ![x] = "busy"] /\ Pc(t, "new") /\ UNCHANGED got
     \/ g \in {"no", "busy"} /\ Bug = "split" /\ inst[x] = 0 /\ Pc(t, "new") /\ UNCHANGED <<got, guard>>
     \/ g = "busy" /\ Bug = "early" /\ inst[x] # 0 /\ Pc(t, "ret") /\ got' = [got EXCEPT ![t] = inst[x]] /\ UNCHANGED guard
     \/ g = "busy" /\ Bug = "twice" /\ Pc(t, "new") /\ UNCHANGED <<got, guard>>
  /\ UNCHANGED <<inst, complete, made, ty, cnt>>
New(t) == /\ pc[t] = "new" /\ Pc(t, "in") /\ made' = made + 1
          /\ got' = [got EXCEPT ![t] = made + 1] /\ inst' = [inst EXCEPT ![ty[t]] = made + 1]
          /\ guard' = [guard EXCEPT ![ty[t]] = "busy"]
          /\ UNCHANGED <<complete, ty, cnt>>
Built(t) == /\ pc[t] = "in" /\ Pc(t, "ret") /\ complete' = complete \cup {got[t]}
            /\ guard' = [guard EXCEPT ![ty[t]] = "done"] /\ UNCHANGED <<inst, made, ty, got, cnt>>
Ret(t) == /\ pc[t] = "ret" /\ Pc(t, "idle") /\ ty' = [ty EXCEPT ![t] = 0] /\ got' = [got EXCEPT ![t] = 0]
          /\ UNCHANGED <<guard, inst, complete, made, cnt>>
Next == \E t \in Threads : Call(t) \/ Test(t) \/ New(t) \/ Built(t) \/ Ret(t)

\* the abstract object of a type becomes known with the first return
VARIABLES known
absPend == [t \in {u \in Threads : pc[u] # "idle"} |-> ty[t]]
absCtor == [x \in {y \in Types : guard[y] = "done" \/ \E t \in Threads : pc[t] = "in" /\ ty[t] = y} |-> IF guard[x] = "done" THEN "done" ELSE "busy"]
A == INSTANCE Singleton WITH obj <- known, ctor <- absCtor, pend <- absPend
HInit == Init /\ known = A!Empty
HNext == /\ Next
         /\ known' = IF \E t \in Threads : pc[t] = "ret" /\ pc'[t] = "idle"
                     THEN LET t == CHOOSE u \in Threads : pc[u] = "ret" /\ pc'[u] = "idle" IN (ty[t] :> got[t]) @@ known
                     ELSE known
Spec == HInit /\ [][HNext]_<<vars, known>> /\ \A t \in Threads : WF_<<vars, known>>(HNext /\ (Test(t) \/ New(t) \/ Built(t) \/ Ret(t)))
AbsNext == \E t \in Threads :
  \/ pc[t] = "idle" /\ pc'[t] # "idle" /\ A!Request(t, ty'[t])
  \/ pc[t] = "new" /\ pc'[t] = "in" /\ A!CtorBegin(t, ty[t])
  \/ pc[t] = "in" /\ pc'[t] = "ret" /\ A!CtorEnd(t, ty[t])
  \/ pc[t] = "ret" /\ pc'[t] = "idle" /\ A!Return(t, ty[t], got[t], got[t] \in complete, TRUE)
Refines == A!PInit(<<>>) /\ [][AbsNext]_(A!pvars)
Inv == A!TypeInv /\ made <= Cardinality(Types)
\* every request returns
Returns == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
