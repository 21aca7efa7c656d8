---------------------------- MODULE Observable ----------------------------
(* Abstract specification of observable<T>.                                  *)
(*                                                                           *)
(* A value is a pair <<key, aux>>; values are equal when their keys are.  An *)
(* assignment that changes the value while the callback is enabled owes one  *)
(* notification; notifications are delivered one at a time in the order of   *)
(* the changes, by the assigning thread, before its assignment returns.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES val, en, owed, cbt, pend
pvars == <<val, en, owed, cbt, pend>>
\* owed: sequence of [t, v] notifications not delivered yet; cbt: thread + 1 inside the callback (0: none)
\* pend: thread -> [op, v, d, r, n]  (n: its notification is still owed or being delivered)

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Key(v) == v \div 1000

PInit(v0) == val = v0 /\ en = 1 /\ owed = <<>> /\ cbt = 0 /\ pend = Empty

Call(t, op, v, x) == /\ t \notin DOMAIN pend
                     /\ pend' = pend @@ (t :> [op |-> op, v |-> v, x |-> x, d |-> FALSE, r |-> 0, n |-> FALSE])
                     /\ UNCHANGED <<val, en, owed, cbt>>
Is(t, op) == t \in DOMAIN pend /\ pend[t].op = op /\ ~pend[t].d
Assign(t) ==
  /\ Is(t, "set")
  /\ IF Key(pend[t].v) = Key(val)
     THEN /\ pend' = [pend EXCEPT ![t].d = TRUE] /\ UNCHANGED <<val, owed>>
     ELSE /\ val' = pend[t].v
          /\ pend' = [pend EXCEPT ![t].d = TRUE, ![t].n = en = 1]
          /\ owed' = IF en = 1 THEN Append(owed, [t |-> t, v |-> pend[t].v]) ELSE owed
  /\ UNCHANGED <<en, cbt>>
Get(t) == Is(t, "get") /\ pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = val] /\ UNCHANGED <<val, en, owed, cbt>>
IsEn(t) == Is(t, "isen") /\ pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = en] /\ UNCHANGED <<val, en, owed, cbt>>
SetEn(t) == Is(t, "en") /\ en' = pend[t].v /\ pend' = [pend EXCEPT ![t].d = TRUE] /\ UNCHANGED <<val, owed, cbt>>
Internal == \E t \in DOMAIN pend : Assign(t) \/ Get(t) \/ IsEn(t) \/ SetEn(t)

Begin(t, v) == /\ cbt = 0 /\ owed # <<>> /\ owed[1] = [t |-> t, v |-> v]
               /\ cbt' = t + 1 /\ UNCHANGED <<val, en, owed, pend>>
\* x: the callback leaves with an exception, which the assignment passes on
End(t) == /\ cbt = t + 1 /\ cbt' = 0 /\ owed' = Tail(owed)
          /\ pend' = [pend EXCEPT ![t].n = FALSE, ![t].r = pend[t].x]
          /\ UNCHANGED <<val, en>>
Ret(t, op, r) == /\ t \in DOMAIN pend /\ pend[t].op = op /\ pend[t].d /\ ~pend[t].n /\ pend[t].r = r
                 /\ pend' = Drop(pend, t) /\ UNCHANGED <<val, en, owed, cbt>>
\* every thread is blocked: only a callback that is executing may hold the others up
Quiet == pend = Empty \/ cbt # 0

TypeInv == /\ cbt # 0 => owed # <<>> /\ owed[1].t = cbt - 1
           /\ en \in {0, 1}
           /\ \A t \in DOMAIN pend : pend[t].n <=> \E i \in DOMAIN owed : owed[i].t = t
=============================================================================
