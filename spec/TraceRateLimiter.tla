------------------------- MODULE TraceRateLimiter -------------------------
(* Checks recorded executions of rate_limiter.                              *)
EXTENDS RateLimiter, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Advance == l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit
TNext ==
  \/ IsEv("new") /\ New(Ev.id, Ev.r) /\ Advance
  \/ IsEv("call") /\ Call(Ev.t, Ev.id) /\ Advance
  \/ IsEv("ret") /\ Ret(Ev.t) /\ Advance
  \/ IsEv("tick") /\ Tick(Ev.now, Ev.q = 1 /\ Traces[tid].p.lazy = 0) /\ Advance
  \/ IsEv("at") /\ Jump(Ev.now) /\ Advance
  \/ IsEv("burst") /\ Burst(Ev.id, Ev.n) /\ Advance
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
