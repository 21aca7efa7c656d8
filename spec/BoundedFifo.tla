---------------------------- MODULE BoundedFifo ----------------------------
(* Abstract specification of blocking_queue: a bounded FIFO queue whose       *)
(* operations take effect atomically, one at a time, somewhere between the    *)
(* call and the return.  An operation in progress is a record in `pend`; its  *)
(* effect is the action Lin(t).  push and pop are enabled only if there is    *)
(* room / an item, so "blocked" is simply "called and not enabled".           *)
EXTENDS Naturals, Integers, Sequences

VARIABLES q,      \* items in the queue
          cap,    \* effective capacity, >= 1
          pend    \* thread -> [op, v, st] ; st in {"idle","called","done"}, v = argument, then result

vars == <<q, cap, pend>>

Max(a, b) == IF a > b THEN a ELSE b
Idle == [op |-> "", v |-> 0, st |-> "idle"]

PushOps  == {"push", "pushm"}
TryPush  == {"trypush", "trypushm"}
Blocking == PushOps \cup {"pop"}

InitQ(c, threads) == /\ q = <<>>
                     /\ cap = Max(c, 1)
                     /\ pend = [t \in threads |-> Idle]

Call(t, op, v) == /\ pend[t].st = "idle"
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> v, st |-> "called"]]
                  /\ UNCHANGED <<q, cap>>

Done(t, res) == pend' = [pend EXCEPT ![t].st = "done", ![t].v = res]

\* can the operation of t take effect now?
Enabled(t) == /\ pend[t].st = "called"
              /\ CASE pend[t].op \in PushOps -> Len(q) < cap
                   [] pend[t].op = "pop"     -> Len(q) > 0
                   [] OTHER                  -> TRUE

Lin(t) ==
  /\ Enabled(t)
  /\ LET o == pend[t].op  v == pend[t].v IN
     CASE o \in PushOps -> q' = Append(q, v) /\ Done(t, 0)
       [] o \in TryPush -> IF Len(q) < cap THEN q' = Append(q, v) /\ Done(t, 1)
                                           ELSE q' = q /\ Done(t, 0)
       [] o = "pop"     -> q' = Tail(q) /\ Done(t, Head(q))
       [] o = "trypop"  -> IF q # <<>> THEN q' = Tail(q) /\ Done(t, Head(q))
                                       ELSE q' = q /\ Done(t, 0)
       [] o = "size"    -> q' = q /\ Done(t, Len(q))
       [] o = "cap"     -> q' = q /\ Done(t, cap)
  /\ UNCHANGED cap

Ret(t, op, res) == /\ pend[t].st = "done" /\ pend[t].op = op /\ pend[t].v = res
                   /\ pend' = [pend EXCEPT ![t] = Idle]
                   /\ UNCHANGED <<q, cap>>

\* No thread can make a step without a new call: every thread still inside an
\* operation must be one that is legitimately blocked.
Quiet == \A t \in DOMAIN pend : ~Enabled(t) /\ pend[t].st # "done"

\* what exists when nobody can move: the items in the queue, and those of callers waiting to push
Held == {pend[t].v : t \in {u \in DOMAIN pend : pend[u].st = "called" /\ pend[u].op \in PushOps}}
Items == {q[i] : i \in DOMAIN q}
Live(ids, gone) == IF gone THEN ids = {} ELSE Items \subseteq ids /\ ids \subseteq Items \cup Held

Bounded == Len(q) <= cap
NoDup   == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
=============================================================================
