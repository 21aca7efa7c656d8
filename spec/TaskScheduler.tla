--------------------------- MODULE TaskScheduler ---------------------------
(* Abstract specification of task_scheduler (time in microseconds).           *)
(*                                                                            *)
(* A registry of scheduled tasks (one-shot: iv = 0, recurring: iv > 0), the   *)
(* bag of occurrences handed over to the n workers, and the life cycle.  A    *)
(* task whose due time is reached is dispatched: its occurrence (if enabled)  *)
(* goes to the workers; a one-shot leaves the registry and a recurring task   *)
(* is rescheduled to the first point of its grid that is not in the past at   *)
(* the time it is rescheduled (Settle).                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES now,
          lc,      \* "stopped" | "running" | "stopping" (tasks not discarded yet) | "cleared" (stop has discarded the tasks)
          n, hw,   \* worker threads, hardware concurrency
          reg,     \* set of scheduled tasks [k, id, due, iv, en, u]; u: dispatched, not yet settled
          info,    \* k -> [kind, a, rec] of every accepted task
          bag,     \* occurrences waiting for a worker, in the order in which they became due
          taken,   \* k -> number of occurrences taken by a worker that has not begun yet
          exec,    \* thread -> k
          fin,     \* one-shot tasks that have been executed
          lost,    \* one-shot tasks that were discarded (removed, stopped, due while disabled)
          pend     \* thread -> pending call

pvars == <<now, lc, n, hw, reg, info, bag, taken, exec, fin, lost, pend>>

Empty == [x \in {} |-> 0]
Clamp(k, h) == IF k < 1 THEN 1 ELSE IF k > h THEN h ELSE k
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Inc(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE f @@ (k :> 1)
Dec(f, k) == IF f[k] = 1 THEN Drop(f, k) ELSE [f EXCEPT ![k] = @ - 1]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})
Total(f) == SumOver(f, DOMAIN f)
Waiting == {bag[i] : i \in DOMAIN bag}
Busy == Total(taken) + Cardinality(DOMAIN exec)
Named(id) == {r \in reg : r.id = id /\ id # 0}
OneShots(S) == {k \in S : ~info[k].rec}

PInit(h) == /\ now = 0 /\ lc = "stopped" /\ n = 0 /\ hw = h /\ reg = {} /\ info = Empty
            /\ bag = <<>> /\ taken = Empty /\ exec = Empty /\ fin = {} /\ lost = {} /\ pend = Empty

Call(t, c) == /\ t \notin DOMAIN pend
              /\ pend' = pend @@ (t :> (c @@ [d |-> FALSE, r |-> 0]))
              /\ UNCHANGED <<now, lc, n, hw, reg, info, bag, taken, exec, fin, lost>>
Done(t, r) == pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = r]
B(b) == IF b THEN 1 ELSE 0

Settled == \A r \in reg : ~r.u
\* smallest b + j * s >= now with j >= j0
Grid(b, s, j0) == LET f == b + j0 * s IN IF f >= now THEN f ELSE f + ((now - f + s - 1) \div s) * s

\* ---- registry operations ---------------------------------------------------------
Queries == {"sched", "en", "iv", "size"}
Changes == {"remove", "enable", "update"}
Query(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].d /\ pend[t].op \in Queries /\ Settled
  /\ LET c == pend[t]
         S == Named(c.id)
     IN Done(t, CASE c.op = "sched" -> B(S # {})
                  [] c.op = "en"    -> B(\E r \in S : r.en)
                  [] c.op = "iv"    -> IF \E r \in S : r.iv > 0 THEN (CHOOSE r \in S : TRUE).iv ELSE -1
                  [] c.op = "size"  -> Cardinality(reg))
  /\ UNCHANGED <<now, lc, n, hw, reg, info, bag, taken, exec, fin, lost>>
Change(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].d /\ pend[t].op \in Changes /\ Settled
  /\ LET c == pend[t]
         S == Named(c.id)
         x == CHOOSE r \in S : TRUE
     IN CASE S = {} -> Done(t, 0) /\ UNCHANGED <<reg, lost>>
          [] S # {} /\ c.op = "remove" -> /\ Done(t, 1) /\ reg' = reg \ S
                                          /\ lost' = lost \cup OneShots({x.k})
          [] S # {} /\ c.op = "enable" -> /\ Done(t, 1) /\ reg' = (reg \ S) \cup {[x EXCEPT !.en = c.v]}
                                          /\ UNCHANGED lost
          [] S # {} /\ c.op = "update" ->
               IF x.iv > 0 /\ c.v > 0
               THEN /\ Done(t, 1) /\ UNCHANGED lost
                    /\ reg' = (reg \ S) \cup {[x EXCEPT !.iv = c.v, !.due = Grid(x.due - x.iv, c.v, 0)]}
               ELSE Done(t, 0) /\ UNCHANGED <<reg, lost>>
  /\ UNCHANGED <<now, lc, n, hw, info, bag, taken, exec, fin>>
Schedule(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].d /\ pend[t].op \in {"once", "every"} /\ Settled
  /\ LET c == pend[t]
         rec == c.op = "every"
     IN IF lc = "running" /\ Named(c.id) = {} /\ (rec => c.iv > 0)
        THEN /\ Done(t, 1)
             /\ reg' = reg \cup {[k |-> c.k, id |-> c.id, due |-> c.due, iv |-> c.iv, en |-> TRUE, u |-> FALSE]}
             /\ info' = info @@ (c.k :> [kind |-> c.kind, a |-> c.a, rec |-> rec])
        ELSE Done(t, 0) /\ UNCHANGED <<reg, info>>
  /\ UNCHANGED <<now, lc, n, hw, bag, taken, exec, fin, lost>>

\* ---- dispatching -------------------------------------------------------------------
Settle1(r) == [r EXCEPT !.due = Grid(r.due, r.iv, 1), !.u = FALSE]
\* those due are handed over in the order of their due times
\* twostep: the next due time may be computed later than the occurrence is handed over
Dispatch(r, twostep) ==
  /\ lc \in {"running", "stopping"}
  /\ r \in reg /\ ~r.u /\ r.due <= now /\ \A x \in reg : x.u \/ r.due <= x.due
  /\ IF r.en THEN bag' = Append(bag, r.k) ELSE UNCHANGED bag
  /\ IF r.iv = 0
     THEN /\ reg' = reg \ {r}
          /\ lost' = IF r.en THEN lost ELSE lost \cup {r.k}
     ELSE /\ UNCHANGED lost
          /\ \/ reg' = (reg \ {r}) \cup {Settle1(r)}
             \/ twostep /\ reg' = (reg \ {r}) \cup {[r EXCEPT !.u = TRUE]}
  /\ UNCHANGED <<now, lc, n, hw, info, taken, exec, fin, pend>>
Settle(r) ==
  /\ r \in reg /\ r.u
  /\ reg' = (reg \ {r}) \cup {Settle1(r)}
  /\ UNCHANGED <<now, lc, n, hw, info, bag, taken, exec, fin, lost, pend>>
Take ==
  /\ lc # "stopped" /\ bag # <<>> /\ Busy < n
  /\ bag' = Tail(bag) /\ taken' = Inc(taken, Head(bag))
  /\ UNCHANGED <<now, lc, n, hw, reg, info, exec, fin, lost, pend>>

\* ---- life cycle ----------------------------------------------------------------------
IsPend(t, op) == t \in DOMAIN pend /\ pend[t].op = op /\ ~pend[t].d
StartLin(t) ==
  /\ IsPend(t, "start")
  /\ \/ /\ lc = "stopped" /\ lc' = "running" /\ n' = Clamp(pend[t].v, hw) /\ Done(t, 1)
     \/ /\ lc = "running" /\ UNCHANGED <<lc, n>> /\ Done(t, 0)
  /\ UNCHANGED <<now, hw, reg, info, bag, taken, exec, fin, lost>>
StopLin(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].d /\ pend[t].op \in {"stop", "destroy"}
  /\ \/ /\ lc = "running" /\ lc' = "stopping"
        /\ pend' = [pend EXCEPT ![t].op = IF @ = "stop" THEN "stopping" ELSE "destroying"]
     \/ /\ lc = "stopped" /\ Done(t, B(pend[t].op = "destroy"))
        /\ UNCHANGED lc
  /\ UNCHANGED <<now, n, hw, reg, info, bag, taken, exec, fin, lost>>
Stopper(t) == t \in DOMAIN pend /\ pend[t].op \in {"stopping", "destroying"} /\ ~pend[t].d
ClearAll(t) ==
  /\ Stopper(t) /\ lc = "stopping" /\ Settled
  /\ lc' = "cleared" /\ reg' = {}
  /\ lost' = lost \cup OneShots({r.k : r \in reg})
  /\ UNCHANGED <<now, n, hw, info, bag, taken, exec, fin, pend>>
\* occurrences handed over but not started yet are dropped
DropBag(t) ==
  /\ Stopper(t) /\ bag # <<>>
  /\ bag' = <<>> /\ lost' = lost \cup OneShots(Waiting)
  /\ UNCHANGED <<now, lc, n, hw, reg, info, taken, exec, fin, pend>>
StopFin(t) ==
  /\ Stopper(t) /\ lc = "cleared" /\ Busy = 0 /\ bag = <<>>
  /\ lc' = "stopped" /\ n' = 0 /\ Done(t, 1)
  /\ UNCHANGED <<now, hw, reg, info, bag, taken, exec, fin, lost>>

Internal(twostep) ==
  \/ \E r \in reg : Dispatch(r, twostep) \/ Settle(r)
  \/ Take
  \/ \E t \in DOMAIN pend : Query(t) \/ Change(t) \/ Schedule(t) \/ StartLin(t) \/ StopLin(t) \/ ClearAll(t) \/ DropBag(t) \/ StopFin(t)

\* ---- observable actions ----------------------------------------------------------------
OpName(op) == IF op = "stopping" THEN "stop" ELSE IF op = "destroying" THEN "destroy" ELSE op
Ret(t, op, r) ==
  /\ t \in DOMAIN pend /\ pend[t].d /\ OpName(pend[t].op) = op /\ pend[t].r = r
  /\ pend' = Drop(pend, t)
  /\ UNCHANGED <<now, lc, n, hw, reg, info, bag, taken, exec, fin, lost>>
Begin(t, k, a) ==
  /\ k \in DOMAIN taken /\ info[k].a = a
  /\ t \notin DOMAIN exec /\ t \notin DOMAIN pend
  /\ taken' = Dec(taken, k)
  /\ exec' = exec @@ (t :> k)
  /\ UNCHANGED <<now, lc, n, hw, reg, info, bag, fin, lost, pend>>
End(t, k) ==
  /\ t \in DOMAIN exec /\ exec[t] = k
  /\ exec' = Drop(exec, t)
  /\ fin' = fin \cup OneShots({k})
  /\ UNCHANGED <<now, lc, n, hw, reg, info, bag, taken, lost, pend>>
Fut(k, x, v) ==
  /\ CASE x = "val"    -> k \in fin /\ info[k].kind # "throw" /\ v = 7 * k + info[k].a
       [] x = "exc"    -> k \in fin /\ info[k].kind = "throw" /\ v = 5 * k + info[k].a
       [] x = "broken" -> k \in lost
       [] x = "pending" -> k \notin fin \cup lost
       [] OTHER -> FALSE
  /\ UNCHANGED pvars

\* nobody can move without time passing or an outside action
Quiet ==
  /\ Settled /\ Total(taken) = 0
  /\ lc = "running" => (bag = <<>> \/ Busy = n) /\ \A r \in reg : r.due > now
  /\ \A t \in DOMAIN pend :
        CASE pend[t].op \in {"stopping", "destroying"} -> ~pend[t].d /\ lc = "cleared" /\ bag = <<>> /\ Busy > 0
          [] pend[t].op \in {"start", "stop", "destroy"} -> ~pend[t].d /\ lc \in {"stopping", "cleared"}
          [] OTHER -> FALSE
\* time advances; q: every thread was blocked, so that nothing that is due may be left behind or skipped
Tick(to, q) ==
  /\ to > now
  /\ q => Quiet /\ (lc = "running" => \A r \in reg : r.due >= to)
  /\ now' = to
  /\ UNCHANGED <<lc, n, hw, reg, info, bag, taken, exec, fin, lost, pend>>

Needed == {r.k : r \in reg} \cup Waiting \cup DOMAIN taken \cup {exec[t] : t \in DOMAIN exec}
\* what exists when nobody can move: exactly what is still needed (a future keeps what its task was made of)
Live(ids, held, gone) ==
  LET need == IF gone THEN {} ELSE Needed
  IN need \subseteq ids /\ ids \subseteq need \cup held
TypeInv == /\ Busy <= n
           /\ \A r, s \in reg : r # s => r.k # s.k /\ (r.id # 0 => r.id # s.id)
           /\ fin \cap lost = {}
           /\ (lc \in {"stopped", "cleared"} => reg = {})
           /\ (lc = "stopped" => Busy = 0 /\ bag = <<>>)
           /\ \A k \in Waiting \cup DOMAIN taken : ~info[k].rec => k \notin fin \cup lost
=============================================================================
