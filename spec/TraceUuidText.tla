---------------------------- MODULE TraceUuidText ----------------------------
(* A client holding two uuids u and v: parsing a text replaces one of them or throws and changes nothing. *)
EXTENDS UuidText, TLC, Json, IOUtils

VARIABLES tid, l, u
tvars == <<tid, l, u>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
B(x) == x = 1
Zero == [i \in 1..16 |-> 0]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ u = <<Zero, Zero>>
Parse ==
  /\ Ev.e = "parse"
  /\ B(Ev.valid) = Valid(Ev.s)
  /\ IF Valid(Ev.s) THEN Ev.r = "ok" /\ u' = [u EXCEPT ![Ev.k] = Bytes(Ev.s)] ELSE Ev.r = "throw" /\ u' = u
Show == /\ Ev.e = "show" /\ UNCHANGED u
        /\ Ev.t = Canonical(u[Ev.k]) /\ Ev.os = Canonical(u[Ev.k]) /\ B(Ev.again)
Compare ==
  /\ Ev.e = "cmp" /\ UNCHANGED u
  /\ LET lt == Less(u[1], u[2])
         gt == Less(u[2], u[1]) IN
     /\ B(Ev.lt) = lt /\ B(Ev.gt) = gt /\ B(Ev.le) = ~gt /\ B(Ev.ge) = ~lt /\ B(Ev.eq) = (u[1] = u[2]) /\ B(Ev.ne) = (u[1] # u[2])
Copy == Ev.e = "copy" /\ u' = [u EXCEPT ![Ev.k] = u[3 - Ev.k]]
TNext == More /\ l' = l + 1 /\ UNCHANGED tid /\ (Parse \/ Show \/ Compare \/ Copy)
TSpec == TInit /\ [][TNext]_tvars
Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
