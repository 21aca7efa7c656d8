------------------------ MODULE TraceTaskScheduler ------------------------
(* Checks recorded executions of task_scheduler against TaskScheduler.       *)
EXTENDS TaskScheduler, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Is(e) == More /\ Ev.e = e
Set(s) == {s[i] : i \in DOMAIN s}
Advance == l' = l + 1 /\ UNCHANGED tid
TwoStep == Traces[tid].p.lazy = 1

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit(Traces[tid].p.hw)

CallRec == CASE Ev.op \in {"once", "every"} -> [op |-> Ev.op, k |-> Ev.k, id |-> Ev.id, due |-> Ev.due, iv |-> Ev.iv, kind |-> Ev.kind, a |-> Ev.a]
             [] Ev.op = "enable" -> [op |-> Ev.op, id |-> Ev.id, v |-> Ev.v = 1]
             [] OTHER -> [op |-> Ev.op, id |-> Ev.id, v |-> Ev.v]

\* Look-ahead that only prunes the search: when the trace shows that nothing handed to the workers was dropped
\* (look = 1: at every stop the workers were idle and the scheduler quiescent), an occurrence is handed over
\* only if the trace still contains its begin event.
Remaining(k) == Cardinality({j \in l..Len(Traces[tid].ev) : Traces[tid].ev[j].e = "begin" /\ Traces[tid].ev[j].k = k})
Cnt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Queued(k) == Cardinality({i \in DOMAIN bag' : bag'[i] = k})
Useful == Traces[tid].p.look = 1 => \A i \in DOMAIN bag' : Queued(bag'[i]) + Cnt(taken', bag'[i]) <= Remaining(bag'[i])
\* Further pruning, for traces in which no call meets tasks that are due (ties = 1): of tasks that are due at the same time, those whose begin
\* events come first in the trace are handed over first (the other orders explain nothing more: two workers' takes can be exchanged).
FirstBegin(k) == LET b == SelectSeq(Traces[tid].p.begins[k], LAMBDA j : j >= l)
                     c == Queued(k) + Cnt(taken', k) - 1
                 IN IF c < Len(b) THEN b[c + 1] ELSE 1000000 + k
TieOk == (Traces[tid].p.ties = 1 /\ Len(bag') > Len(bag)) =>
           LET k == bag'[Len(bag')]
               x == CHOOSE r \in reg : r.k = k
               NextBegin(r) == LET b == SelectSeq(Traces[tid].p.begins[r.k], LAMBDA j : j >= l)
                                   c == Queued(r.k) + Cnt(taken', r.k)
                               IN IF c < Len(b) THEN b[c + 1] ELSE 1000000 + r.k
           IN \A r \in reg : (r.k # k /\ r.due = x.due /\ r.en /\ ~r.u) => FirstBegin(k) < NextBegin(r)

TNext ==
  \/ Is("call") /\ Call(Ev.t, CallRec) /\ Advance
  \/ Is("ret") /\ Ret(Ev.t, Ev.op, Ev.r) /\ Advance
  \/ Is("begin") /\ Begin(Ev.t, Ev.k, Ev.a) /\ Advance
  \/ Is("end") /\ End(Ev.t, Ev.k) /\ Advance
  \/ Is("fut") /\ Fut(Ev.k, Ev.x, Ev.v) /\ Advance
  \/ Is("live") /\ Live(Set(Ev.ids), Set(Ev.held), Ev.gone) /\ UNCHANGED pvars /\ Advance
  \/ Is("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ Is("tick") /\ Tick(Ev.now, Ev.q = 1) /\ Advance
  \/ More /\ Ev.e \in {"ret", "begin", "fut", "quiet", "tick"} /\ Internal(TwoStep) /\ Useful /\ TieOk /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
