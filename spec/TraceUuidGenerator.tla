------------------------- MODULE TraceUuidGenerator -------------------------
EXTENDS UuidGenerator, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit
TNext ==
  \/ IsEv("call") /\ Call(Ev.t) /\ Advance
  \/ IsEv("ret") /\ Ret(Ev.t, Ev.b) /\ Advance
  \/ IsEv("bulk") /\ Bulk(Ev.n, Ev.bs) /\ Advance
TSpec == TInit /\ [][TNext]_tvars

Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>) /\ TypeInv
Diag == PrintT(<<"AT", l>>)
=============================================================================
