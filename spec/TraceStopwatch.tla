--------------------------- MODULE TraceStopwatch ---------------------------
EXTENDS Stopwatch, Json, IOUtils, TLC
VARIABLES tid, l
tvars == <<tid, l, now, start>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
TInit == tid \in DOMAIN Traces /\ l = 1 /\ SInit(Traces[tid].p.t0)
Shown(e) == /\ Ev.ns = e /\ Ev.ns2 = InFraction(e, Sec) /\ Ev.us = InFraction(e, 1000000) /\ Ev.ms = InFraction(e, 1000) /\ Ev.cs = InFraction(e, 50)
            /\ Ev.s = InSeconds(e, 1) /\ Ev.m = InSeconds(e, 60) /\ Ev.h = InSeconds(e, 3600) /\ Ev.w = InSeconds(e, 604800) /\ Ev.odd = InSeconds(e, 7)
TNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE Ev.e = "new" -> New
       [] Ev.e = "reset" -> Reset(Ev.i)
       [] Ev.e = "pass" -> Pass(Ev.d)
       [] Ev.e = "wall" -> UNCHANGED svars
       [] Ev.e = "start" -> Ev.at = start[Ev.i] /\ UNCHANGED svars
       [] Ev.e = "elapsed" -> Shown(Elapsed(Ev.i)) /\ UNCHANGED svars
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
\* time that has passed is never negative
Inv == \A i \in DOMAIN start : Elapsed(i)[1] >= 0
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
