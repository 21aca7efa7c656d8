------------------------ MODULE HighPrecisionTimer ------------------------
(* Abstract specification of high_precision_timer (time in microseconds).    *)
(*                                                                           *)
(* A running timer has a current grid instant `due`.  The callback begins    *)
(* once due is reached; when an invocation has ended the timer counts it     *)
(* (inv) and, in any order, moves to the first later instant of the grid     *)
(* that is not in the past, counting the instants it skips (mis), at once or *)
(* bit by bit.  Hence at all times between two invocations                   *)
(* due = t0 + (inv + mis + 1) * iv  (see Grid).                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES now,
          lc,      \* "stopped" | "running" | "halting"
          cb,      \* number of the callback that is set (0: none)
          t0, iv, due, inv, mis,
          busy,    \* thread executing the callback (0: none; threads are numbered from 0, so stored + 1)
          post,    \* bookkeeping left to do after an invocation: subset of {"count", "move", "add"}
          rst,     \* counters already reset by a start in progress: subset of {"inv", "mis"}
          pend     \* thread -> pending call
pvars == <<now, lc, cb, t0, iv, due, inv, mis, busy, post, rst, pend>>

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

PInit == /\ now = 0 /\ lc = "stopped" /\ cb = 0 /\ t0 = 0 /\ iv = 0 /\ due = 0 /\ inv = 0 /\ mis = 0
         /\ busy = 0 /\ post = {} /\ rst = {} /\ pend = Empty

Call(t, c) == /\ t \notin DOMAIN pend
              /\ pend' = pend @@ (t :> (c @@ [d |-> FALSE, r |-> 0]))
              /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, busy, post, rst>>
Done(t, r) == pend' = [pend EXCEPT ![t].d = TRUE, ![t].r = r]
Is(t, ops) == t \in DOMAIN pend /\ pend[t].op \in ops /\ ~pend[t].d

\* ---- internal actions -----------------------------------------------------------------------------
SetCb(t) ==
  /\ Is(t, {"setcb"}) /\ lc = "stopped"
  /\ cb' = pend[t].v /\ Done(t, 1)
  /\ UNCHANGED <<now, lc, t0, iv, due, inv, mis, busy, post, rst>>
\* the first instant after the present one that is not in the past
NextDue == LET first == due + iv
               k == IF first >= now THEN 0 ELSE (now - first + iv - 1) \div iv
           IN first + k * iv
\* the number of instants before d that are neither counted nor going to be counted as invoked
Owed(d) == (d - t0) \div iv - 1 - inv - (IF "count" \in post THEN 1 ELSE 0) - mis
\* what the count of missed instants may have reached by now
MisRange == mis .. (mis + (IF "move" \in post THEN Owed(NextDue) ELSE IF "add" \in post THEN Owed(due) ELSE 0))
Read(t, v) ==
  /\ Is(t, {"inv", "mis"}) /\ Done(t, v)
  /\ IF pend[t].op = "inv" THEN v = inv /\ UNCHANGED mis ELSE v \in MisRange /\ mis' = v
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, busy, post, rst>>
StartRefused(t) ==
  /\ Is(t, {"start"}) /\ (cb = 0 \/ pend[t].v <= 0)
  /\ Done(t, 0)
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, busy, post, rst>>
\* stop, destruction and a start on a running timer first halt it
Halt(t) ==
  /\ Is(t, {"start", "stop", "destroy"}) /\ (pend[t].op = "start" => cb # 0 /\ pend[t].v > 0)
  /\ lc = "running" /\ lc' = "halting"
  /\ UNCHANGED <<now, cb, t0, iv, due, inv, mis, busy, post, rst, pend>>
Halted ==
  /\ lc = "halting" /\ busy = 0 /\ post = {} /\ lc' = "stopped"
  /\ UNCHANGED <<now, cb, t0, iv, due, inv, mis, busy, post, rst, pend>>
StopDone(t) ==
  /\ Is(t, {"stop", "destroy"}) /\ lc = "stopped" /\ Done(t, 1)
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, busy, post, rst>>
Reset(t, w) ==
  /\ Is(t, {"start"}) /\ cb # 0 /\ pend[t].v > 0 /\ lc = "stopped" /\ w \notin rst
  /\ rst' = rst \cup {w}
  /\ IF w = "inv" THEN inv' = 0 /\ UNCHANGED mis ELSE mis' = 0 /\ UNCHANGED inv
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, busy, post, pend>>
Go(t) ==
  /\ Is(t, {"start"}) /\ rst = {"inv", "mis"}
  /\ rst' = {} /\ lc' = "running" /\ t0' = now /\ iv' = pend[t].v /\ due' = now + pend[t].v
  /\ Done(t, 1)
  /\ UNCHANGED <<now, cb, inv, mis, busy, post>>
Count ==
  /\ "count" \in post /\ post' = post \ {"count"} /\ inv' = inv + 1
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, mis, busy, rst, pend>>
\* the next instant is chosen by the present time; the count of those skipped follows, maybe later
Move ==
  /\ "move" \in post /\ due' = NextDue
  /\ post' = (post \ {"move"}) \cup (IF Owed(NextDue) > 0 THEN {"add"} ELSE {})
  /\ UNCHANGED <<now, lc, cb, t0, iv, inv, mis, busy, rst, pend>>
Add ==
  /\ "add" \in post /\ post' = post \ {"add"}
  /\ mis' = mis + Owed(due)
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, busy, rst, pend>>

\* Vals(t): the values to consider for the result of a read
InternalOf(Vals(_)) ==
  \/ \E t \in DOMAIN pend : SetCb(t) \/ StartRefused(t) \/ Halt(t) \/ StopDone(t) \/ Go(t) \/ \E w \in {"inv", "mis"} : Reset(t, w)
  \/ \E t \in DOMAIN pend : Is(t, {"inv", "mis"}) /\ \E v \in Vals(t) : Read(t, v)
  \/ Halted \/ Count \/ Move \/ Add
AnyVal(t) == IF pend[t].op = "inv" THEN {inv} ELSE MisRange
\* (part of what is missed is counted; in a trace this shows only in what a read returns, see Read)
Bump ==
  /\ IF "move" \in post THEN mis' \in {v \in MisRange : v > mis} /\ post' = post
     ELSE "add" \in post /\ mis' \in {v \in MisRange : v > mis} /\ post' = post \ (IF mis' = mis + Owed(due) THEN {"add"} ELSE {})
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, busy, rst, pend>>
Internal == InternalOf(AnyVal) \/ Bump

\* ---- observable actions ---------------------------------------------------------------------------
Ret(t, op, r) ==
  /\ t \in DOMAIN pend /\ pend[t].d /\ pend[t].op = op /\ pend[t].r = r
  /\ pend' = Drop(pend, t)
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, busy, post, rst>>
Begin(t, c) ==
  /\ lc = "running" /\ busy = 0 /\ post = {} /\ c = cb /\ now >= due
  /\ t \notin DOMAIN pend
  /\ busy' = t + 1
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, post, rst, pend>>
End(t, c) ==
  /\ busy = t + 1 /\ c = cb
  /\ busy' = 0 /\ post' = {"count", "move"}
  /\ UNCHANGED <<now, lc, cb, t0, iv, due, inv, mis, rst, pend>>

\* nobody can move without time passing or an outside action
Quiet ==
  /\ post = {}
  /\ lc = "running" => busy # 0 \/ due > now
  \* only a callback that is executing may hold up stop (or a start that replaces the running timer); the request may
  \* take effect when that callback has ended or be overtaken by further instants that are due by then
  /\ \A t \in DOMAIN pend : ~pend[t].d /\ pend[t].op \in {"start", "stop", "destroy"} /\ busy # 0
\* time advances; q: every thread was blocked, so no instant may be left behind
Tick(to, q) ==
  /\ to > now
  /\ q => Quiet /\ (lc = "running" /\ busy = 0 => due >= to)
  /\ now' = to
  /\ UNCHANGED <<lc, cb, t0, iv, due, inv, mis, busy, post, rst, pend>>

\* ---- properties -----------------------------------------------------------------------------------
\* no drift, no double firing: the next instant is determined by the two counts alone
Grid == lc = "running" /\ post = {} => due = t0 + (inv + mis + 1) * iv
NeverEarly == busy # 0 => now >= due
Life == /\ (lc = "stopped" => busy = 0 /\ post = {})
        /\ (lc # "stopped" => cb # 0 /\ iv > 0)
\* what exists when nobody can move: the callback that is set
Live(ids, gone) == ids = IF gone \/ cb = 0 THEN {} ELSE {cb}
TypeInv == Grid /\ NeverEarly /\ Life
Monotone == [][\/ inv' >= inv /\ mis' >= mis
               \/ \E t \in DOMAIN pend : pend[t].op = "start"]_pvars
=============================================================================
