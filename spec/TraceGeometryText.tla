------------------------- MODULE TraceGeometryText -------------------------
(* Recorded histories of two values of one geometric type, and the texts they gave. *)
EXTENDS GeometryText, Json, IOUtils, TLC
VARIABLES tid, l, o
tvars == <<tid, l, o>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Par == Traces[tid].p
More == l <= Len(Traces[tid].ev)
Zero == <<0, 0, 0, 0, Par.micro>>
Coords == IF Par.kind \in {"line", "rect"} THEN 4 ELSE 2
Null == [i \in 1..Coords |-> Zero]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ o = [r \in 1..2 |-> Null]
Upd(v) == o' = [o EXCEPT ![Ev.r] = v]
TNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE Ev.e = "new" -> Upd(Ev.v)
       [] Ev.e = "set" -> Upd(SetCoords(o[Ev.r], Ev.i, Ev.v))
       [] Ev.e = "low" -> Upd(SetLow(o[Ev.r], Ev.v))
       [] Ev.e = "high" -> Upd(SetHigh(o[Ev.r], Ev.v))
       [] Ev.e = "copy" -> Upd(o[3 - Ev.r])
       [] Ev.e = "text" -> /\ UNCHANGED o
                           /\ Ev.s = ValueText(Par.kind, o[Ev.r])
                           /\ Ev.o = Ev.pre \o ValueText(Par.kind, o[Ev.r]) \o Ev.post
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
