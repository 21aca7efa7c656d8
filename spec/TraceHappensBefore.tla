------------------------ MODULE TraceHappensBefore ------------------------
(* Checks that recorded executions are free of data races.  An event is     *)
(* <<kind, thread, location or object or thread, code address>>.            *)
EXTENDS HappensBefore, Json, IOUtils

VARIABLES tid, l
tvars == <<hvars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)

TInit ==
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ LET p == Traces[tid].p IN HInit(0..(p.nt - 1), 0..(p.no - 1), 0..(p.nl - 1))

TNext ==
  /\ More
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ LET k == Ev[1]  t == Ev[2]  x == Ev[3] IN
     CASE k = 0 -> Read(t, x)
       [] k = 1 -> Write(t, x)
       [] k = 2 -> AtomicRead(t, x)
       [] k = 3 -> AtomicWrite(t, x)
       [] k = 4 -> Acquire(t, x)
       [] k = 5 -> Release(t, x)
       [] k = 6 -> ReleaseJoin(t, x)
       [] k = 7 -> Clear(t, x)
       [] k = 8 -> Fork(t, x)
       [] k = 9 -> JoinThread(t, x)
TSpec == TInit /\ [][TNext]_tvars

\* a thread knows its own present better than anybody else
Inv == \A t \in DOMAIN clk : \A u \in DOMAIN clk : clk[u][t] <= clk[t][t]
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
