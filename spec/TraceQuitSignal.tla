-------------------------- MODULE TraceQuitSignal --------------------------
(* Checks recorded executions of the signal handling functions.              *)
EXTENDS QuitSignal, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit
TNext ==
  \/ IsEv("install") /\ Install(Ev.k) /\ Advance
  \/ IsEv("quit") /\ Quit(Ev.t, Ev.msg, Ev.sig) /\ Advance
  \/ IsEv("raise") /\ Signal(Ev.t, Ev.sig) /\ Advance
  \/ IsEv("begin") /\ Begin(Ev.t, Ev.k, Ev.msg, Ev.sig) /\ Advance
  \/ IsEv("end") /\ End(Ev.t) /\ Advance
  \/ IsEv("done") /\ Done(Ev.t) /\ Advance
  \/ IsEv("wait") /\ Wait(Ev.t) /\ Advance
  \/ IsEv("waited") /\ Waited(Ev.t) /\ Advance
  \/ IsEv("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ More /\ Ev.e \in {"done", "waited", "quiet"} /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
