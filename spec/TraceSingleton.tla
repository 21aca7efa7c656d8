--------------------------- MODULE TraceSingleton ---------------------------
EXTENDS Singleton, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit(Traces[tid].p.pre)
TNext ==
  \/ IsEv("req") /\ Request(Ev.t, Ev.ty) /\ Advance
  \/ IsEv("ctor") /\ CtorBegin(Ev.t, Ev.ty) /\ Advance
  \/ IsEv("ctord") /\ CtorEnd(Ev.t, Ev.ty) /\ Advance
  \/ IsEv("ret") /\ Return(Ev.t, Ev.ty, Ev.o, Ev.ok = 1, Ev.user = 1) /\ Advance
  \/ IsEv("quiet") /\ UNCHANGED pvars /\ Advance
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
