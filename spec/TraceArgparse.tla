---------------------------- MODULE TraceArgparse ----------------------------
EXTENDS Argparse, Json, IOUtils

VARIABLES tid, l
tvars == <<tid, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
D == Traces[tid].p
More == l <= Len(Traces[tid].ev)

TInit == tid \in DOMAIN Traces /\ l = 1
\* every parse of the real parser ends as the machine does, with the same values bound
Explained ==
  /\ Ev.e = "parse"
  /\ IF EnvFails(D, Ev.env) # {} THEN Ev.r = "error" /\ EnvLeft(D, Ev.env, Ev.pos, Ev.opt, Ev.flag)
     ELSE LET st == Parse(D, Ev.env, Ev.toks) IN
          /\ Ev.r = st.r
          /\ Ev.pos = st.pos /\ Ev.opt = st.opt /\ Ev.flag = st.flag
TNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid /\ Explained
TSpec == TInit /\ [][TNext]_tvars
Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
