-------------------------- MODULE TraceThreadPool --------------------------
(* Checks recorded executions of thread_pool against ThreadPool.              *)
EXTENDS ThreadPool, Json, IOUtils

VARIABLES tid, l
tvars == <<lc, n, hw, queue, st, exec, pend, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Is(e) == More /\ Ev.e = e
Set(s) == {s[i] : i \in DOMAIN s}
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit(Traces[tid].p.hw)

CallRec == CASE Ev.op = "run"   -> [op |-> "run", k |-> Ev.k, kind |-> Ev.kind, a |-> Ev.a]
             [] Ev.op = "start" -> [op |-> "start", n |-> Ev.n]
             [] OTHER           -> [op |-> Ev.op]

\* Look-ahead that only prunes the search, where the check adds it to the trace (a complete trace ends with quiet, so every task taken begins):
\* bg[k]: the place of task k's begin event or 0.
\* A worker takes the next task only if it begins later in the trace, and not before it must, that is when a task behind or at the head of
\* the queue begins next, or when a stop is about to discard the queue.  Takes happen in queue order whenever they do, and postponing
\* them keeps more workers free, so an explanation with earlier takes implies one with late ones.
Ahead == "bg" \in DOMAIN Traces[tid].p
BeginAt(k) == IF k \in DOMAIN Traces[tid].p.bg THEN Traces[tid].p.bg[k] ELSE 0
Useful == Ahead => /\ BeginAt(Head(queue)) >= l
                   /\ \/ Ev.e = "begin" /\ Ev.k \in DOMAIN st /\ st[Ev.k].s = "queued"
                      \/ Open({"stop", "destroy"})
\* Where no submission overlaps a stop (order = 1), tasks are accepted in one order (ord) that explains whatever any order explains, and only
\* when a submission returns or a task begins that needs it.  In ord, task x comes at the first moment at which it must have been taken:
\* when it begins, or a task begins whose submission was called after that of x had returned.  The tasks that must have been taken at any moment
\* are then a prefix of ord, so no order keeps fewer workers busy; ord respects the order of submissions that do not overlap.
Timely(t) == (Ahead /\ Traces[tid].p.order = 1) =>
               /\ pend[t].k = Traces[tid].p.ord[Cardinality(DOMAIN st) + 1]
               /\ \/ Ev.e = "ret" /\ IsPend(Ev.t, "run")
                  \/ Ev.e = "begin" /\ Ev.k \notin DOMAIN st
Moves == \/ queue # <<>> /\ Useful /\ Take
         \/ \E t \in DOMAIN pend : IsPend(t, "run") /\ Timely(t) /\ Accept(t)
         \/ OtherMoves

TNext ==
  \/ Is("call") /\ Call(Ev.t, CallRec) /\ Advance
  \/ Is("ret") /\ Ret(Ev.t, Ev.op, Ev.r) /\ Advance
  \/ Is("begin") /\ Begin(Ev.t, Ev.k, Ev.a) /\ Advance
  \/ Is("end") /\ End(Ev.t, Ev.k) /\ Advance
  \/ Is("fut") /\ Fut(Ev.k, Ev.x, Ev.v) /\ Advance
  \/ Is("live") /\ Live(Set(Ev.ids), Set(Ev.held), Ev.gone) /\ UNCHANGED pvars /\ Advance
  \/ Is("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ More /\ Ev.e \in {"ret", "begin", "fut", "quiet"} /\ Moves /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
