---------------------------- MODULE DateTextModel ----------------------------
(* Model checking of the texts of dates and times: what is written at any precision is read as the value cut to that precision and
   nothing else, different values have different texts, and the texts of instants and times sort like their values. *)
EXTENDS DateText, FiniteSets
CONSTANTS Dates, Secs
DefDates == { <<1970, 1, 1>>, <<1969, 12, 31>>, <<2000, 2, 29>>, <<1999, 2, 28>>, <<2024, 12, 31>>, <<1700, 3, 9>>, <<2262, 4, 10>>, <<2038, 1, 19>> }
DefSecs == {0, 1, 59, 60, 61, 3599, 3600, 3661, 35999, 36000, 43200, 86399}
ManySecs == {61 * x : x \in 0..1416}
OneDate == { <<2000, 2, 29>> }
Fracs == {0, 1, 999, 1000, 1999, 99999, 123456, 999999} \X {0, 1, 10, 999}
VARIABLES c, q, p, z
vars == <<c, q, p, z>>
Init == c \in Dates /\ q \in { <<0, s, 0, 0>> : s \in Secs } /\ p = 0 /\ z = <<0, 0, 0, 0>>
Next == p = 0 /\ p' \in 4..7 /\ q' \in { <<0, q[2], x[1], x[2]>> : x \in Fracs } /\ UNCHANGED c
        /\ z' \in { <<0, q[2], 123456, 10>>, <<0, (q[2] + 1) % 86400, 0, 0>> }
Spec == Init /\ [][Next]_vars
At0 == AddQ(<<DayNumber(c), 0, 0, 0>>, q)
AtZ == AddQ(<<DayNumber(c), 0, 0, 0>>, z)
TT == TimeFmt(q, p)
TI == InstantFmt(c, At0, p)
RECURSIVE Before(_, _, _)
Before(t, u, i) == IF i > Len(t) THEN FALSE ELSE IF t[i] # u[i] THEN t[i] < u[i] ELSE Before(t, u, i + 1)
DateRead == LET r == ReadDate(DateFmt(c)) IN r.exact /\ r.vs = {c}
TimeRead == p # 0 => LET r == ReadTime(TT, p) IN r.exact /\ r.vs = {FloorQ(q, p)}
InstantRead == p # 0 => LET r == ReadInstant(TI, p) IN r.exact /\ r.vs = {FloorQ(At0, p)}
Length == p # 0 => Len(TT) = 8 + (IF p = 4 THEN 0 ELSE 1 + Decimals(p)) /\ Len(TI) = 11 + Len(TT)
Sorted == p # 0 => /\ (TT = TimeFmt(z, p)) <=> (FloorQ(q, p) = FloorQ(z, p))
                   /\ LessQ(FloorQ(q, p), FloorQ(z, p)) <=> Before(TT, TimeFmt(z, p), 1)
                   /\ LessQ(FloorQ(At0, p), FloorQ(AtZ, p)) <=> Before(TI, InstantFmt(c, AtZ, p), 1)
\* durations: the sign in front, then the text of the absolute value
Delta == p # 0 => /\ DeltaFmt(NegQ(q), p) = (IF FloorQ(q, p) = ZeroQ THEN <<>> ELSE <<MINUS>>) \o DeltaFmt(q, p)
                  /\ DeltaFmt(q, p) = TT
\* no text with a character replaced is taken for the canonical text of anything else than what it says
Marred == p # 0 /\ q[3] \in {0, 1999} /\ z[3] = 0 /\ q[2] < 4000 =>
  \A x \in DOMAIN TT : \A ch \in {48, 57, COLON, DOT, MINUS, 32} : ch = TT[x] \/
     LET u == [TT EXCEPT ![x] = ch]  r == ReadTime(u, p) IN r.exact => Cardinality(r.vs) >= 1 /\ FloorQ(q, p) \notin r.vs
=============================================================================
