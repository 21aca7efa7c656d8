----------------------- MODULE TraceEventDispatcher -----------------------
(* Checks recorded executions of event_dispatcher against EventDispatcher.   *)
EXTENDS EventDispatcher, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Is(e) == More /\ Ev.e = e
Set(s) == {s[i] : i \in DOMAIN s}
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit(Traces[tid].p.hw)

\* Pruning of the search that loses no explanation: a worker takes the next invocation only when it must, that is when one that still waits in the
\* queue begins now, or a stop is about to discard the queue (takes happen in queue order, and postponing them keeps more workers free);
\* an emission that is the only pending call takes effect when it returns or one of its invocations begins.
TakeNow == \/ Ev.e = "begin" /\ \A i \in DOMAIN taken : taken[i] # <<Ev.k, Ev.m>>
           \/ \E t \in DOMAIN pend : pend[t].op \in {"stop", "destroy"}
EmitNow(t) == DOMAIN pend = {t} => (Ev.e = "ret" /\ Ev.t = t) \/ (Ev.e = "begin" /\ Ev.m = pend[t].v)
Moves == \/ TakeNow /\ Take
         \/ \E t \in DOMAIN pend : EmitNow(t) /\ (EmitLin(t) \/ Enq(t))
         \/ OtherMoves

TNext ==
  \/ Is("call") /\ Call(Ev.t, [op |-> Ev.op, k |-> Ev.k, ev |-> Ev.ev, sig |-> Ev.sig, v |-> Ev.v]) /\ Advance
  \/ Is("ret") /\ Ret(Ev.t, Ev.op, Ev.r) /\ Advance
  \/ Is("begin") /\ Begin(Ev.t, Ev.k, Ev.m) /\ Advance
  \/ Is("end") /\ End(Ev.t, Ev.k, Ev.m) /\ Advance
  \/ Is("live") /\ Live(Set(Ev.ids), Set(Ev.held), Ev.gone) /\ UNCHANGED pvars /\ Advance
  \/ Is("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ More /\ Ev.e \in {"ret", "begin", "quiet"} /\ Moves /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
