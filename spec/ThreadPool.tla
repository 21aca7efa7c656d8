----------------------------- MODULE ThreadPool -----------------------------
(* Abstract specification of thread_pool.                                     *)
(* A call is pending from its call event to its return; its effect is an      *)
(* internal action in between.  Tasks go queued -> taken -> exec -> ended, or *)
(* queued -> dropped (by stop / destruction).  start and stop exclude each    *)
(* other; stop has two internal steps: StopLin (running off, queue dropped)   *)
(* and StopFin (every started task has ended).                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES lc,      \* "stopped" | "running" | "stopping"
          n,       \* number of worker threads (0 when stopped)
          hw,      \* hardware concurrency
          queue,   \* sequence of task ids waiting
          st,      \* task id -> [s |-> state, kind, a]  for every accepted task
          exec,    \* thread id -> task id it is executing
          pend     \* thread id -> pending call

pvars == <<lc, n, hw, queue, st, exec, pend>>

Empty == [x \in {} |-> 0]
Clamp(k, h) == IF k < 1 THEN 1 ELSE IF k > h THEN h ELSE k
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Tasks(state) == {k \in DOMAIN st : st[k].s = state}
Busy == Cardinality(Tasks("taken")) + Cardinality(Tasks("exec"))

PInit(h) == /\ lc = "stopped" /\ n = 0 /\ hw = h /\ queue = <<>>
            /\ st = Empty /\ exec = Empty /\ pend = Empty

Lifecycle == {"start", "stop", "destroy"}

Call(t, c) == /\ t \notin DOMAIN pend
              /\ pend' = pend @@ (t :> (c @@ [d |-> FALSE, r |-> 0]))
              /\ UNCHANGED <<lc, n, hw, queue, st, exec>>
Done(t, r) == pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = r]
IsPend(t, op) == t \in DOMAIN pend /\ pend[t].op = op /\ ~pend[t].d

\* ---- internal actions --------------------------------------------------------
Accept(t) == /\ IsPend(t, "run")
             /\ queue' = Append(queue, pend[t].k)
             /\ st' = st @@ (pend[t].k :> [s |-> "queued", kind |-> pend[t].kind, a |-> pend[t].a])
             /\ Done(t, 1)
             /\ UNCHANGED <<lc, n, hw, exec>>
StartLin(t) == /\ IsPend(t, "start")
               /\ \/ /\ lc = "stopped" /\ lc' = "running" /\ n' = Clamp(pend[t].n, hw) /\ Done(t, 1)
                  \/ /\ lc = "running" /\ UNCHANGED <<lc, n>> /\ Done(t, 0)
               /\ UNCHANGED <<hw, queue, st, exec>>
DropAll == /\ queue' = <<>>
           /\ st' = [k \in DOMAIN st |-> IF st[k].s = "queued" THEN [st[k] EXCEPT !.s = "dropped"] ELSE st[k]]
StopLin(t) == /\ IsPend(t, "stop")
              /\ \/ /\ lc = "running" /\ lc' = "stopping" /\ DropAll
                    /\ pend' = [pend EXCEPT ![t].op = "stopping"]
                 \/ /\ lc = "stopped" /\ Done(t, 0) /\ UNCHANGED <<lc, queue, st>>
              /\ UNCHANGED <<n, hw, exec>>
DestroyLin(t) == /\ IsPend(t, "destroy") /\ lc # "stopping"
                 /\ IF lc = "running" THEN lc' = "stopping" /\ pend' = [pend EXCEPT ![t].op = "destroying"]
                                      ELSE lc' = lc /\ pend' = [pend EXCEPT ![t].op = "destroying"]
                 /\ DropAll /\ UNCHANGED <<n, hw, exec>>
StopFin(t) == /\ t \in DOMAIN pend /\ pend[t].op \in {"stopping", "destroying"} /\ ~pend[t].d
              /\ Busy = 0
              /\ lc' = "stopped" /\ n' = 0
              /\ Done(t, 1)
              /\ UNCHANGED <<hw, queue, st, exec>>
Take == /\ lc = "running" /\ queue # <<>> /\ Busy < n
        /\ queue' = Tail(queue)
        /\ st' = [st EXCEPT ![Head(queue)].s = "taken"]
        /\ UNCHANGED <<lc, n, hw, exec, pend>>

\* observations: exact unless a start or stop is under way
Open(ops) == \E t \in DOMAIN pend : pend[t].op \in ops
Starts == {Clamp(pend[t].n, hw) : t \in {u \in DOMAIN pend : pend[u].op = "start"}}
Counts == {n} \cup (IF Open({"start", "stop", "stopping", "destroying"}) THEN {0} \cup Starts ELSE {})
Runnings == {IF lc = "running" THEN 1 ELSE 0} \cup (IF Open({"start"}) THEN {0, 1} ELSE {}) \cup (IF Open({"stop", "stopping"}) THEN {0} ELSE {})
Observe(t) == /\ \/ IsPend(t, "count") /\ \E c \in Counts : Done(t, c)
                 \/ IsPend(t, "running") /\ \E r \in Runnings : Done(t, r)
              /\ UNCHANGED <<lc, n, hw, queue, st, exec>>

OtherMoves == \E t \in DOMAIN pend : StartLin(t) \/ StopLin(t) \/ StopFin(t) \/ DestroyLin(t) \/ Observe(t)
Internal == Take \/ OtherMoves \/ \E t \in DOMAIN pend : Accept(t)

\* ---- observable actions ------------------------------------------------------
OpName(op) == IF op = "stopping" THEN "stop" ELSE IF op = "destroying" THEN "destroy" ELSE op
Ret(t, op, r) == /\ t \in DOMAIN pend /\ pend[t].d /\ OpName(pend[t].op) = op /\ pend[t].r = r
                 /\ pend' = Drop(pend, t)
                 /\ UNCHANGED <<lc, n, hw, queue, st, exec>>
Begin(t, k, a) == /\ k \in DOMAIN st /\ st[k].s = "taken" /\ st[k].a = a
                  /\ t \notin DOMAIN exec /\ t \notin DOMAIN pend
                  /\ st' = [st EXCEPT ![k].s = "exec"]
                  /\ exec' = exec @@ (t :> k)
                  /\ UNCHANGED <<lc, n, hw, queue, pend>>
End(t, k) == /\ t \in DOMAIN exec /\ exec[t] = k
             /\ st' = [st EXCEPT ![k].s = "ended"]
             /\ exec' = Drop(exec, t)
             /\ UNCHANGED <<lc, n, hw, queue, pend>>
\* outcome of task k's future, seen by a client: x in {"val","exc","broken","pending"}
Fut(k, x, v) == /\ CASE x = "val"    -> k \in DOMAIN st /\ st[k].s = "ended" /\ st[k].kind # "throw" /\ v = 7 * k + st[k].a
                     [] x = "exc"    -> k \in DOMAIN st /\ st[k].s = "ended" /\ st[k].kind = "throw" /\ v = 5 * k + st[k].a
                     [] x = "broken" -> k \in DOMAIN st /\ st[k].s = "dropped"
                     [] x = "pending" -> \/ k \notin DOMAIN st
                                         \/ st[k].s \in {"queued", "taken", "exec"}
                /\ UNCHANGED pvars
\* nobody can move without time passing or an outside action
Quiet == /\ Tasks("taken") = {}
         /\ lc = "running" => (queue = <<>> \/ Busy = n)
         /\ \A t \in DOMAIN pend :
               CASE pend[t].op \in {"stopping", "destroying"} -> ~pend[t].d /\ Busy > 0
                 [] pend[t].op \in {"start", "stop", "destroy"} -> ~pend[t].d /\ lc = "stopping"
                 [] OTHER -> FALSE

Needed == Tasks("queued") \cup Tasks("taken") \cup Tasks("exec")
\* what exists when nobody can move: exactly what is still needed (a future keeps what its task was made of)
Live(ids, held, gone) ==
  LET need == IF gone THEN {} ELSE Needed
  IN need \subseteq ids /\ ids \subseteq need \cup held
TypeInv == /\ lc \in {"stopped", "running", "stopping"}
           /\ Busy <= n
           /\ \A i \in DOMAIN queue : st[queue[i]].s = "queued"
           /\ \A i, j \in DOMAIN queue : i # j => queue[i] # queue[j]
           /\ (lc = "stopped" => Busy = 0)
=============================================================================
