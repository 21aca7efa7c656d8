--------------------- MODULE TraceHighPrecisionTimer ---------------------
(* Checks recorded executions of high_precision_timer.                      *)
EXTENDS HighPrecisionTimer, Json, IOUtils

VARIABLES tid, l
tvars == <<pvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
IsEv(e) == More /\ Ev.e = e
Set(s) == {s[i] : i \in DOMAIN s}
Advance == l' = l + 1 /\ UNCHANGED tid

\* what the pending call of thread t returns: no other result of a read needs to be tried
RECURSIVE Result(_, _)
Result(t, k) == IF k > Len(Traces[tid].ev) THEN {}
                ELSE LET e == Traces[tid].ev[k] IN IF e.e = "ret" /\ e.t = t THEN {e.r} ELSE Result(t, k + 1)
Seen(t) == Result(t, l)

TInit == tid \in DOMAIN Traces /\ l = 1 /\ PInit

TNext ==
  \/ IsEv("call") /\ Call(Ev.t, [op |-> Ev.op, v |-> Ev.v]) /\ Advance
  \/ IsEv("ret") /\ Ret(Ev.t, Ev.op, Ev.r) /\ Advance
  \/ IsEv("begin") /\ Begin(Ev.t, Ev.k) /\ Advance
  \/ IsEv("end") /\ End(Ev.t, Ev.k) /\ Advance
  \/ IsEv("live") /\ Live(Set(Ev.ids), Ev.gone) /\ UNCHANGED pvars /\ Advance
  \/ IsEv("quiet") /\ Quiet /\ UNCHANGED pvars /\ Advance
  \/ IsEv("tick") /\ Tick(Ev.now, Ev.q = 1) /\ Advance
  \/ More /\ Ev.e \in {"ret", "begin", "quiet", "tick"} /\ InternalOf(Seen) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Inv == TypeInv
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
