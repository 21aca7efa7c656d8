----------------------------- MODULE TaskWrapper -----------------------------
(* Tasks as owners of callables.  A callable is a counter: a call returns how often this callable has been called before,  *)
(* and throws if it was made to.  task[s]: <<>> (there is none in slot s), "moved" or the callable it owns.                  *)
(* orig[c]: what the object of the user that callable c was made from is: <<>> (moved into the task, or destroyed), or its   *)
(* own count (it was copied).                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES task, calls, orig
wvars == <<task, calls, orig>>
Slots == 1..4
Owner(c) == [k |-> "owns", c |-> c]
Gone == [k |-> "moved", c |-> 0]
Free == [k |-> "none", c |-> 0]
Alive(s) == task[s].k # "none"
WInit == task = [s \in Slots |-> Free] /\ calls = <<>> /\ orig = <<>>
\* task s is made of a new callable; the object it is made of has been called n times, and stays with the user if it is copied
Make(s, n, copied) == /\ ~Alive(s)
                      /\ calls' = Append(calls, n)
                      /\ orig' = Append(orig, IF copied THEN <<n>> ELSE <<>>)
                      /\ task' = [task EXCEPT ![s] = Owner(Len(calls) + 1)]
\* result: how many calls went before
Invoke(s, r) == LET c == task[s].c IN
                /\ task[s].k = "owns" /\ r = calls[c]
                /\ calls' = [calls EXCEPT ![c] = @ + 1] /\ UNCHANGED <<task, orig>>
CallOrig(c, r) == /\ orig[c] # <<>> /\ r = orig[c][1]
                  /\ orig' = [orig EXCEPT ![c] = <<@[1] + 1>>] /\ UNCHANGED <<task, calls>>
DropOrig(c) == orig[c] # <<>> /\ orig' = [orig EXCEPT ![c] = <<>>] /\ UNCHANGED <<task, calls>>
Move(s, t) == /\ Alive(s) /\ ~Alive(t) /\ task' = [task EXCEPT ![t] = task[s], ![s] = Gone] /\ UNCHANGED <<calls, orig>>
Destroy(s) == Alive(s) /\ task' = [task EXCEPT ![s] = Free] /\ UNCHANGED <<calls, orig>>
\* how many objects of callable c exist
Existing(c) == Cardinality({s \in Slots : task[s] = Owner(c)}) + (IF orig[c] = <<>> THEN 0 ELSE 1)
=============================================================================
