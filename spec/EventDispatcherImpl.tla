------------------------ MODULE EventDispatcherImpl ------------------------
(* Implementation-level model of event_dispatcher: the handler table under    *)
(* one mutex, emission from a snapshot taken under it, one task per handler   *)
(* handed to the worker pool (represented by its own specification), stop     *)
(* clearing the table before it stops the pool.                               *)
(* Checked: refinement of EventDispatcher (C10-C12), order of execution with  *)
(* one worker.  Bug # "none" selects a faulty variant.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, MaxOps, MaxH, Ops, Events, Sigs, HW, Bug

VARIABLES table,                      \* sequence of [k, ev, sig, id]
          last,                       \* last handler id handed out
          tp, n, pq, taken, exec,     \* pool
          mtx,                        \* the pool's life-cycle mutex
          cpc, cop, cnt, nh, ids      \* clients; handlers created; ids returned (k -> id)
vars == <<table, last, tp, n, pq, taken, exec, mtx, cpc, cop, cnt, nh, ids>>
poolv == <<tp, n, pq, taken, exec>>
Empty == [x \in {} |-> 0]
NoOp == [op |-> "", k |-> 0, ev |-> "", sig |-> "", v |-> 0, r |-> 0, rest |-> <<>>]
W(i) == 200 + i
Busy == Len(taken) + Cardinality(DOMAIN exec)
B(b) == IF b THEN 1 ELSE 0

Init == /\ table = <<>> /\ last = 0 /\ tp = FALSE /\ n = 0 /\ pq = <<>> /\ taken = <<>> /\ exec = Empty /\ mtx = 0
        /\ cpc = [c \in Clients |-> "idle"] /\ cop = [c \in Clients |-> NoOp] /\ cnt = [c \in Clients |-> 0] /\ nh = 0 /\ ids = Empty
CPc(c, p) == cpc' = [cpc EXCEPT ![c] = p]
Finish(c, r) == CPc(c, "ret") /\ cop' = [cop EXCEPT ![c].r = r]
Calls == {[NoOp EXCEPT !.op = "add", !.k = nh + 1, !.ev = e, !.sig = s] : e \in Events, s \in Sigs}
         \cup {[NoOp EXCEPT !.op = "rmh", !.v = i] : i \in {ids[k] : k \in DOMAIN ids} \cup {99}}
         \cup {[NoOp EXCEPT !.op = "rme", !.ev = e] : e \in Events}
         \cup {[NoOp EXCEPT !.op = "emit", !.ev = e, !.sig = s, !.v = 0] : e \in Events, s \in Sigs}
         \cup {[NoOp EXCEPT !.op = "start", !.v = 1], [NoOp EXCEPT !.op = "stop"]}
Call(c) == /\ cpc[c] = "idle" /\ cnt[c] < MaxOps /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
           /\ \E o \in Calls : /\ o.op \in Ops /\ o.k <= MaxH
                               /\ cop' = [cop EXCEPT ![c] = IF o.op = "emit" THEN [o EXCEPT !.v = 10 * c + cnt[c]] ELSE o]
                               /\ CPc(c, o.op) /\ nh' = IF o.k > 0 THEN nh + 1 ELSE nh
           /\ UNCHANGED <<table, last, mtx, ids>> /\ UNCHANGED poolv
Table(c) ==
  /\ \/ /\ cpc[c] = "add"
        /\ LET id == IF Bug = "id_per_event" THEN Len(SelectSeq(table, LAMBDA h : h.ev = cop[c].ev)) + 1 ELSE last + 1
           IN /\ last' = IF id > last THEN id ELSE last
              /\ table' = Append(table, [k |-> cop[c].k, ev |-> cop[c].ev, sig |-> cop[c].sig, id |-> id])
              /\ Finish(c, id)
     \/ /\ cpc[c] = "rmh" /\ UNCHANGED last
        /\ LET keep == SelectSeq(table, LAMBDA h : h.id # cop[c].v)
           IN table' = keep /\ Finish(c, B(Len(keep) < Len(table)))
     \/ /\ cpc[c] = "rme" /\ UNCHANGED last
        /\ LET keep == SelectSeq(table, LAMBDA h : IF Bug = "prefix" THEN cop[c].ev # h.ev /\ cop[c].ev # "a" ELSE h.ev # cop[c].ev)
           IN table' = keep /\ Finish(c, B(Len(keep) < Len(table)))
     \/ /\ cpc[c] = "emit" /\ UNCHANGED <<last, table>>
        /\ LET S == SelectSeq(table, LAMBDA h : h.ev = cop[c].ev /\ (h.sig = cop[c].sig \/ Bug = "any_sig"))
           IN IF S = <<>> THEN Finish(c, 0)
              ELSE CPc(c, "enq") /\ cop' = [cop EXCEPT ![c].r = 1, ![c].rest = [i \in DOMAIN S |-> S[i].k]]
  /\ UNCHANGED <<mtx, cnt, nh, ids>> /\ UNCHANGED poolv
\* one task per handler of the snapshot; Bug "live_table": the table is consulted again for every handler
Enq(c) ==
  /\ cpc[c] = "enq"
  /\ LET r == cop[c].rest
         gone == Bug = "live_table" /\ ~\E i \in DOMAIN table : table[i].k = Head(r)
     IN /\ pq' = IF gone THEN pq ELSE IF Bug = "lifo" THEN <<<<Head(r), cop[c].v>>>> \o pq ELSE Append(pq, <<Head(r), cop[c].v>>)
        /\ cop' = [cop EXCEPT ![c].rest = Tail(r)]
        /\ CPc(c, IF Len(r) = 1 THEN "ret" ELSE "enq")
  /\ UNCHANGED <<table, last, mtx, tp, n, taken, exec, cnt, nh, ids>>
Life(c) ==
  \/ /\ cpc[c] = "start" /\ mtx = 0
     /\ IF tp THEN Finish(c, 0) /\ UNCHANGED <<tp, n>> ELSE tp' = TRUE /\ n' = cop[c].v /\ Finish(c, 1)
     /\ UNCHANGED <<table, last, mtx, pq, taken, exec, cnt, nh, ids>>
  \/ /\ cpc[c] = "stop" /\ CPc(c, "tpstop")
     /\ IF Bug = "keep_handlers" THEN UNCHANGED table ELSE table' = <<>>
     /\ UNCHANGED <<last, mtx, cop, cnt, nh, ids>> /\ UNCHANGED poolv
  \/ /\ cpc[c] = "tpstop" /\ mtx = 0
     /\ IF ~tp THEN Finish(c, 0) /\ UNCHANGED <<tp, mtx, pq>>
        ELSE tp' = FALSE /\ mtx' = c /\ pq' = (IF Bug = "keep_queue" THEN pq ELSE <<>>) /\ CPc(c, "join") /\ UNCHANGED cop
     /\ UNCHANGED <<table, last, n, taken, exec, cnt, nh, ids>>
  \/ /\ cpc[c] = "join" /\ Busy = 0 /\ mtx' = 0 /\ n' = 0 /\ Finish(c, 1)
     /\ UNCHANGED <<table, last, tp, pq, taken, exec, cnt, nh, ids>>
Ret(c) == /\ cpc[c] = "ret" /\ CPc(c, "idle") /\ cop' = [cop EXCEPT ![c] = NoOp]
          /\ ids' = IF cop[c].op = "add" THEN ids @@ (cop[c].k :> cop[c].r) ELSE ids
          /\ UNCHANGED <<table, last, mtx, cnt, nh>> /\ UNCHANGED poolv
Take == /\ tp /\ pq # <<>> /\ Busy < n /\ pq' = Tail(pq) /\ taken' = Append(taken, Head(pq))
        /\ UNCHANGED <<table, last, mtx, tp, n, exec, cpc, cop, cnt, nh, ids>>
Begin(i) == /\ W(i) \notin DOMAIN exec /\ taken # <<>>
            /\ exec' = exec @@ (W(i) :> Head(taken)) /\ taken' = Tail(taken)
            /\ UNCHANGED <<table, last, mtx, tp, n, pq, cpc, cop, cnt, nh, ids>>
End(i) == /\ W(i) \in DOMAIN exec /\ exec' = [t \in DOMAIN exec \ {W(i)} |-> exec[t]]
          /\ UNCHANGED <<table, last, mtx, tp, n, pq, taken, cpc, cop, cnt, nh, ids>>
Next == \/ \E c \in Clients : Call(c) \/ Table(c) \/ Enq(c) \/ Life(c) \/ Ret(c)
        \/ Take \/ \E i \in 1..HW : Begin(i) \/ End(i)
Spec == Init /\ [][Next]_vars

\* ---- refinement -------------------------------------------------------------------------------
absLc == IF \E c \in Clients : cpc[c] = "join" THEN "stopping" ELSE IF tp THEN "running" ELSE "stopped"
\* ids become known to the specification when they are returned
absHs == [i \in DOMAIN table |-> [table[i] EXCEPT !.id = IF table[i].k \in DOMAIN ids THEN ids[table[i].k] ELSE 0]]
absPend == [c \in {x \in Clients : cpc[x] # "idle"} |->
              LET o == cop[c]
                  x == [op |-> o.op, k |-> o.k, ev |-> o.ev, sig |-> o.sig, v |-> o.v]
                  st == CASE cpc[c] = "enq" \/ (cpc[c] = "ret" /\ o.op = "emit") -> "lin"
                          [] cpc[c] = "join" -> "stopping"
                          [] cpc[c] = "ret" /\ o.op = "stop" -> "fin"
                          [] OTHER -> "new"
              IN x @@ [d |-> cpc[c] = "ret", r |-> IF o.op = "add" THEN 0 ELSE o.r, s |-> st,
                       c |-> o.op = "stop" /\ cpc[c] # "stop", rest |-> o.rest]]
A == INSTANCE EventDispatcher WITH lc <- absLc, n <- n, hw <- HW, hs <- absHs, used <- {ids[k] : k \in DOMAIN ids},
                                   queue <- pq, taken <- taken, exec <- exec, pend <- absPend
AbsNext == \/ A!Internal
           \/ \E c \in Clients : \/ cpc[c] = "idle" /\ cpc'[c] # "idle"
                                    /\ LET o == cop'[c] IN A!Call(c, [op |-> o.op, k |-> o.k, ev |-> o.ev, sig |-> o.sig, v |-> o.v])
                                 \/ cpc[c] = "ret" /\ A!Ret(c, cop[c].op, cop[c].r)
           \/ \E i \in 1..HW : (taken # <<>> /\ A!Begin(W(i), Head(taken)[1], Head(taken)[2])) \/ (W(i) \in DOMAIN exec /\ A!End(W(i), exec[W(i)][1], exec[W(i)][2]))
Refines == A!PInit(HW) /\ [][AbsNext]_(A!pvars)
Inv == A!TypeInv
Quiescent == /\ \A c \in Clients : cpc[c] = "idle" \/ (cpc[c] \in {"start", "tpstop"} /\ mtx # 0) \/ (cpc[c] = "join" /\ Busy > 0)
             /\ taken = <<>> /\ (tp => pq = <<>> \/ Busy = n)
QuietOk == Quiescent => A!Quiet
=============================================================================
