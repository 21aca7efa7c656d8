--------------------------- MODULE TraceHelpText ---------------------------
EXTENDS HelpText, Json, IOUtils
VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
D == Traces[tid].p
More == l <= Len(Traces[tid].ev)
TInit == tid \in DOMAIN Traces /\ l = 1
Explained ==
  /\ Ev.e = "parse"
  /\ LET bad == EnvFails(D, Ev.env) IN
     IF bad # {} THEN Ev.r = "error" /\ \E k \in bad : Printed(D, EnvTry(D, Ev.env, k), Ev.out, Ev.err)
     ELSE LET st == Parse(D, Ev.env, Ev.toks) IN Ev.r = st.r /\ Printed(D, st, Ev.out, Ev.err)
TNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid /\ Explained
TSpec == TInit /\ [][TNext]_tvars
Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
