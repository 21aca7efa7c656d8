------------------------- MODULE TraceBoundedFifo -------------------------
(* Checks recorded executions of blocking_queue against BoundedFifo.         *)
(* Effects (Lin) are internal steps; delaying each of them to just before    *)
(* the next return or quiescence loses no behaviour (calls commute with      *)
(* effects), which keeps the search small.                                   *)
EXTENDS BoundedFifo, TLC, Json, IOUtils

VARIABLES tid, l
tvars == <<q, cap, pend, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
CheckOps   == IOEnv.MODE = "ops"      \* C01: results
CheckQuiet == IOEnv.MODE = "quiet"    \* C02: no lost wakeup

Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)

TInit == /\ tid \in DOMAIN Traces
         /\ l = 1
         /\ InitQ(Traces[tid].p.cap, 0..(Traces[tid].p.n - 1))

Advance == l' = l + 1 /\ UNCHANGED tid

TCall  == More /\ Ev.e = "call"  /\ Call(Ev.t, Ev.op, Ev.v) /\ Advance
TRet   == More /\ Ev.e = "ret"   /\ Ret(Ev.t, Ev.op, Ev.v) /\ Advance
TLin   == More /\ Ev.e \in {"ret", "quiet"} /\ (\E t \in DOMAIN pend : Lin(t)) /\ UNCHANGED <<tid, l>>
TQuiet == More /\ Ev.e = "quiet" /\ (CheckQuiet => Quiet) /\ UNCHANGED vars /\ Advance

\* In "ops" mode a lost wakeup is somebody else's business: stop judging there.
\* In "quiet" mode an execution whose results are wrong is not judged.
TStuck == More /\ CheckOps /\ Ev.e \in {"deadlock", "giveup"} /\ UNCHANGED vars
          /\ l' = Len(Traces[tid].ev) + 1 /\ UNCHANGED tid

TLive == More /\ Ev.e = "live" /\ Live({Ev.ids[i] : i \in DOMAIN Ev.ids}, Ev.gone) /\ UNCHANGED vars /\ Advance

TNext == TLive \/ TCall \/ TRet \/ TLin \/ TQuiet \/ TStuck
TSpec == TInit /\ [][TNext]_tvars

Inv == Bounded
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
