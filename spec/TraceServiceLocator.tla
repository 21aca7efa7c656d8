------------------------ MODULE TraceServiceLocator ------------------------
EXTENDS ServiceLocator, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsOp(e) == Ev.e = "op" /\ Ev.op = e

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit
Step ==
  \/ IsOp("regs") /\ RegService(Ev.ty, Ev.v, Ev.r, Ev.o, Ev.m)
  \/ IsOp("regf") /\ RegFailing(Ev.ty, Ev.threw, Ev.r, Ev.m)
  \/ IsOp("create") /\ Create(Ev.h, Ev.v, Ev.o)
  \/ IsOp("regi") /\ RegInstance(Ev.ty, Ev.h, Ev.r)
  \/ IsOp("unreg") /\ Unregister(Ev.ty, Ev.r)
  \/ IsOp("isreg") /\ IsRegistered(Ev.ty, Ev.r)
  \/ IsOp("get") /\ Lookup(Ev.ty, Ev.h, Ev.o, Ev.v)
  \/ IsOp("rel") /\ Release(Ev.h)
  \/ IsOp("use") /\ Use(Ev.h, Ev.v)
TNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid
         /\ Step
         /\ {Ev.live[i] : i \in DOMAIN Ev.live} = Live'
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
