-------------------------- MODULE EventDispatcher --------------------------
(* Abstract specification of event_dispatcher.                                *)
(* Handlers are registered in order under (event name, signature).  Emitting  *)
(* takes a snapshot of the matching handlers (EmitLin) and hands one          *)
(* invocation per handler, in order, to a FIFO queue served by n workers      *)
(* (Enq, Take).  stop unregisters all handlers (ClearHs) and drains the       *)
(* workers (StopLin: queue dropped, StopFin: nothing executing).              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES lc, n, hw,
          hs,      \* sequence of [k, ev, sig, id] (id 0: not returned yet)
          used,    \* ids returned so far
          queue,   \* sequence of <<k, m>>
          taken,   \* sequence of <<k, m>> taken by a worker, not begun
          exec,    \* thread -> <<k, m>>
          pend

pvars == <<lc, n, hw, hs, used, queue, taken, exec, pend>>

Empty == [x \in {} |-> 0]
Clamp(k, h) == IF k < 1 THEN 1 ELSE IF k > h THEN h ELSE k
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Busy == Len(taken) + Cardinality(DOMAIN exec)
B(b) == IF b THEN 1 ELSE 0

PInit(h) == /\ lc = "stopped" /\ n = 0 /\ hw = h /\ hs = <<>> /\ used = {} /\ queue = <<>>
            /\ taken = <<>> /\ exec = Empty /\ pend = Empty

Call(t, c) == /\ t \notin DOMAIN pend
              /\ pend' = pend @@ (t :> (c @@ [d |-> FALSE, r |-> 0, s |-> "new", c |-> FALSE, rest |-> <<>>]))
              /\ UNCHANGED <<lc, n, hw, hs, used, queue, taken, exec>>
Done(t, r) == pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = r]
IsPend(t, op) == t \in DOMAIN pend /\ pend[t].op = op /\ ~pend[t].d

\* ---- registry ------------------------------------------------------------------------
AddLin(t) ==
  /\ IsPend(t, "add")
  /\ hs' = Append(hs, [k |-> pend[t].k, ev |-> pend[t].ev, sig |-> pend[t].sig, id |-> 0])
  /\ Done(t, 0) /\ UNCHANGED <<lc, n, hw, used, queue, taken, exec>>
RemoveHandlerLin(t) ==
  /\ IsPend(t, "rmh")
  /\ LET keep == SelectSeq(hs, LAMBDA h : h.id # pend[t].v \/ h.id = 0)
     IN hs' = keep /\ Done(t, B(Len(keep) < Len(hs)))
  /\ UNCHANGED <<lc, n, hw, used, queue, taken, exec>>
RemoveEventLin(t) ==
  /\ IsPend(t, "rme")
  /\ LET keep == SelectSeq(hs, LAMBDA h : h.ev # pend[t].ev)
     IN hs' = keep /\ Done(t, B(Len(keep) < Len(hs)))
  /\ UNCHANGED <<lc, n, hw, used, queue, taken, exec>>

\* ---- emission -------------------------------------------------------------------------
EmitLin(t) ==
  /\ IsPend(t, "emit") /\ pend[t].s = "new"
  /\ LET S == SelectSeq(hs, LAMBDA h : h.ev = pend[t].ev /\ h.sig = pend[t].sig)
     IN pend' = [pend EXCEPT ![t].s = "lin", ![t].r = B(S # <<>>), ![t].d = (S = <<>>), ![t].rest = [i \in DOMAIN S |-> S[i].k]]
  /\ UNCHANGED <<lc, n, hw, hs, used, queue, taken, exec>>
Enq(t) ==
  /\ IsPend(t, "emit") /\ pend[t].rest # <<>>
  /\ queue' = Append(queue, <<Head(pend[t].rest), pend[t].v>>)
  /\ pend' = [pend EXCEPT ![t].rest = Tail(@), ![t].d = (Len(pend[t].rest) = 1)]
  /\ UNCHANGED <<lc, n, hw, hs, used, taken, exec>>
Take ==
  /\ lc = "running" /\ queue # <<>> /\ Busy < n
  /\ queue' = Tail(queue) /\ taken' = Append(taken, Head(queue))
  /\ UNCHANGED <<lc, n, hw, hs, used, exec, pend>>

\* ---- life cycle -------------------------------------------------------------------------
StartLin(t) ==
  /\ IsPend(t, "start")
  /\ \/ lc = "stopped" /\ lc' = "running" /\ n' = Clamp(pend[t].v, hw) /\ Done(t, 1)
     \/ lc = "running" /\ UNCHANGED <<lc, n>> /\ Done(t, 0)
  /\ UNCHANGED <<hw, hs, used, queue, taken, exec>>
Stopper(t) == t \in DOMAIN pend /\ pend[t].op \in {"stop", "destroy"} /\ ~pend[t].d
ClearHs(t) ==
  /\ Stopper(t) /\ ~pend[t].c
  /\ hs' = <<>>
  /\ pend' = [pend EXCEPT ![t].c = TRUE, ![t].d = (pend[t].s = "fin")]
  /\ UNCHANGED <<lc, n, hw, used, queue, taken, exec>>
StopLin(t) ==
  /\ Stopper(t) /\ pend[t].s = "new"
  /\ \/ /\ lc = "running" /\ lc' = "stopping" /\ queue' = <<>>
        /\ pend' = [pend EXCEPT ![t].s = "stopping"]
     \/ /\ lc = "stopped" /\ UNCHANGED <<lc, queue>>
        /\ pend' = [pend EXCEPT ![t].s = "fin", ![t].d = pend[t].c, ![t].r = B(pend[t].op = "destroy")]
  /\ UNCHANGED <<n, hw, hs, used, taken, exec>>
StopFin(t) ==
  /\ Stopper(t) /\ pend[t].s = "stopping" /\ Busy = 0
  /\ lc' = "stopped" /\ n' = 0
  /\ pend' = [pend EXCEPT ![t].s = "fin", ![t].d = pend[t].c, ![t].r = 1]
  /\ UNCHANGED <<hw, hs, used, queue, taken, exec>>

OtherMoves == \E t \in DOMAIN pend : \/ AddLin(t) \/ RemoveHandlerLin(t) \/ RemoveEventLin(t)
                                     \/ StartLin(t) \/ ClearHs(t) \/ StopLin(t) \/ StopFin(t)
Internal == Take \/ OtherMoves \/ \E t \in DOMAIN pend : EmitLin(t) \/ Enq(t)

\* ---- observable actions ---------------------------------------------------------------
Ret(t, op, r) ==
  /\ t \in DOMAIN pend /\ pend[t].d /\ pend[t].op = op
  /\ IF op = "add"
     THEN /\ r > 0 /\ r \notin used
          /\ used' = used \cup {r}
          /\ hs' = [i \in DOMAIN hs |-> IF hs[i].k = pend[t].k THEN [hs[i] EXCEPT !.id = r] ELSE hs[i]]
     ELSE pend[t].r = r /\ UNCHANGED <<hs, used>>
  /\ pend' = Drop(pend, t)
  /\ UNCHANGED <<lc, n, hw, queue, taken, exec>>
Begin(t, k, m) ==
  /\ t \notin DOMAIN exec /\ t \notin DOMAIN pend
  /\ \E i \in DOMAIN taken : /\ taken[i] = <<k, m>>
                             /\ \A j \in 1..(i - 1) : taken[j] # <<k, m>>
                             /\ taken' = RemoveAt(taken, i)
  /\ exec' = exec @@ (t :> <<k, m>>)
  /\ UNCHANGED <<lc, n, hw, hs, used, queue, pend>>
End(t, k, m) ==
  /\ t \in DOMAIN exec /\ exec[t] = <<k, m>>
  /\ exec' = Drop(exec, t)
  /\ UNCHANGED <<lc, n, hw, hs, used, queue, taken, pend>>
Quiet ==
  /\ taken = <<>>
  /\ lc = "running" => (queue = <<>> \/ Busy = n)
  /\ \A t \in DOMAIN pend :
        CASE pend[t].op \in {"stop", "destroy"} -> ~pend[t].d /\ ((pend[t].s = "stopping" /\ Busy > 0) \/ (pend[t].s = "new" /\ lc = "stopping"))
          [] pend[t].op = "start" -> ~pend[t].d /\ lc = "stopping"
          [] OTHER -> FALSE

Needed == {hs[i].k : i \in DOMAIN hs} \cup {queue[i][1] : i \in DOMAIN queue} \cup {exec[t][1] : t \in DOMAIN exec}
\* what exists when nobody can move: exactly what is still needed (a future keeps what its task was made of)
Live(ids, held, gone) ==
  LET need == IF gone THEN {} ELSE Needed
  IN need \subseteq ids /\ ids \subseteq need \cup held
TypeInv == /\ Busy <= n
           /\ \A i, j \in DOMAIN hs : i # j => hs[i].k # hs[j].k /\ (hs[i].id # 0 => hs[i].id # hs[j].id)
           /\ \A i \in DOMAIN hs : hs[i].id # 0 => hs[i].id \in used
           /\ (lc = "stopped" => Busy = 0)
=============================================================================
