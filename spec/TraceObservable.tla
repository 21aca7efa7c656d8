-------------------------- MODULE TraceObservable --------------------------
(* Checks recorded executions of observable<T>.                              *)
EXTENDS Observable, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit(Traces[tid].p.init)

TNext ==
  \/ IsEv("call") /\ Call(Ev.t, Ev.op, Ev.v, Ev.x) /\ Advance
  \/ IsEv("ret") /\ Ret(Ev.t, Ev.op, Ev.r) /\ Advance
  \/ IsEv("begin") /\ Begin(Ev.t, Ev.v) /\ Advance
  \/ IsEv("end") /\ End(Ev.t) /\ Advance
  \/ IsEv("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ More /\ Ev.e \in {"ret", "begin", "quiet"} /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
