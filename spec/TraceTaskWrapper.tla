-------------------------- MODULE TraceTaskWrapper --------------------------
EXTENDS TaskWrapper, Json, IOUtils, TLC
VARIABLES tid, l
tvars == <<tid, l, task, calls, orig>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
TInit == tid \in DOMAIN Traces /\ l = 1 /\ WInit
TNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE Ev.e = "make" -> Make(Ev.s, Ev.n, Ev.copied = 1)
       \* an exception of the callable reaches the one who invokes
       [] Ev.e = "invoke" -> Invoke(Ev.s, Ev.r) /\ Ev.threw = Ev.made
       [] Ev.e = "orig" -> CallOrig(Ev.c, Ev.r)
       [] Ev.e = "droporig" -> DropOrig(Ev.c)
       [] Ev.e = "move" -> Move(Ev.s, Ev.t)
       [] Ev.e = "destroy" -> Destroy(Ev.s)
       [] Ev.e = "live" -> Ev.n = [c \in DOMAIN calls |-> Existing(c)] /\ UNCHANGED wvars
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
Inv == \A s, t \in Slots : (s # t /\ task[s].k = "owns") => task[s] # task[t]
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
