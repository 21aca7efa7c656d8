------------------------------ MODULE DateText ------------------------------
(* Texts of dates, times of day, date-times and durations, as sequences of byte codes. *)
EXTENDS Calendar, Nanos, Sequences

LOCAL Dig(n) == 48 + n
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN <<>> ELSE Append(Pad(n \div 10, w - 1), Dig(n % 10))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Dig(n)>> ELSE Append(Dec(n \div 10), Dig(n % 10))
DecW2(n) == IF n < 100 THEN Pad(n, 2) ELSE Dec(n)
COLON == 58
MINUS == 45
DOT == 46
TEE == 84
DateFmt(c) == Pad(c[1], 4) \o <<MINUS>> \o Pad(c[2], 2) \o <<MINUS>> \o Pad(c[3], 2)
\* decimals of a second of q at precision p
Frac(q, p) == CASE p = 5 -> <<DOT>> \o Pad(q[3] \div 1000, 3)
                [] p = 6 -> <<DOT>> \o Pad(q[3], 6)
                [] p = 7 -> <<DOT>> \o Pad(q[3], 6) \o Pad(q[4], 3)
                [] OTHER -> <<>>
SecFmt(q, p) == Pad(q[2] % 60, 2) \o Frac(q, p)
HourOf(q) == q[2] \div 3600
MinuteOf(q) == (q[2] % 3600) \div 60
ClockFmt(h, q, p) == h \o <<COLON>> \o Pad(MinuteOf(q), 2) \o <<COLON>> \o SecFmt(q, p)
\* a time of day (not negative), truncated to the precision
TimeFmt(t, p) == LET q == FloorQ(t, p) IN ClockFmt(Pad(HourOf(q), 2), q, p)
\* a duration, truncated towards zero
DeltaFmt(a, p) == LET q == AbsQ(TruncQ(a, p))
                      h == q[1] * 24 + HourOf(q)
                  IN (IF NegativeQ(TruncQ(a, p)) THEN <<MINUS>> ELSE <<>>) \o ClockFmt(DecW2(h), q, p)
InstantFmt(c, x, p) == DateFmt(c) \o <<TEE>> \o TimeFmt(<<0, x[2], x[3], x[4]>>, p)
\* formats made of %Y %m %d %H %M %S %F %T %% and other characters
RECURSIVE Render(_, _, _, _, _)
Render(f, i, c, q, p) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] = 37 /\ i < Len(f) THEN
    (CASE f[i + 1] = 89 -> Pad(c[1], 4) [] f[i + 1] = 109 -> Pad(c[2], 2) [] f[i + 1] = 100 -> Pad(c[3], 2)
       [] f[i + 1] = 72 -> Pad(HourOf(q), 2) [] f[i + 1] = 77 -> Pad(MinuteOf(q), 2) [] f[i + 1] = 83 -> SecFmt(q, p)
       [] f[i + 1] = 70 -> DateFmt(c) [] f[i + 1] = 84 -> ClockFmt(Pad(HourOf(q), 2), q, p) [] OTHER -> <<f[i + 1]>>) \o Render(f, i + 2, c, q, p)
  ELSE <<f[i]>> \o Render(f, i + 1, c, q, p)

(* ---- reading: the number formed by the digits from position i on (at most w of them), and where it ends ---- *)
IsDig(c) == c >= 48 /\ c <= 57
RECURSIVE Run(_, _, _)
Run(t, i, w) == IF w > 0 /\ i <= Len(t) /\ IsDig(t[i]) THEN 1 + Run(t, i + 1, w - 1) ELSE 0
RECURSIVE NumAt(_, _, _, _)
NumAt(t, i, k, acc) == IF k = 0 THEN acc ELSE NumAt(t, i + 1, k - 1, IF acc > 9999 THEN acc ELSE acc * 10 + t[i] - 48)  \* large ones need not be exact
Bad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
\* fields separated by single characters: ws the widths, seps the characters between them
RECURSIVE Fields(_, _, _, _, _)
Fields(t, i, ws, seps, acc) ==
  LET k == Run(t, i, ws[1])
      v == NumAt(t, i, k, 0) IN
  IF ws = <<0>> THEN [ok |-> TRUE, v |-> acc, i |-> i] \* the rest is read otherwise
  ELSE IF k = 0 THEN Bad
  ELSE IF Len(ws) = 1 THEN [ok |-> TRUE, v |-> Append(acc, v), i |-> i + k]
  ELSE IF i + k > Len(t) \/ t[i + k] # seps[1] THEN Bad
  ELSE Fields(t, i + k + 1, Tail(ws), Tail(seps), Append(acc, v))
\* the same, where the first field may have a sign (which counts for its width)
SignedFields(t, ws, seps) ==
  IF Len(t) > 0 /\ t[1] \in {MINUS, 43} THEN
    LET r == Fields(t, 2, [ws EXCEPT ![1] = @ - 1], seps, <<>>) IN
    IF r.ok /\ t[1] = MINUS THEN [r EXCEPT !.v[1] = -@] ELSE r
  ELSE Fields(t, 1, ws, seps, <<>>)
\* the decimals that precision p keeps
Decimals(p) == CASE p = 5 -> 3 [] p = 6 -> 6 [] p = 7 -> 9 [] OTHER -> 0
\* at most n decimals from position i on (missing ones are zeros), as microseconds and nanoseconds
FracAt(t, i, n) ==
  LET k == IF i <= Len(t) /\ t[i] = DOT THEN Run(t, i + 1, n) ELSE 0
      digit(j) == IF j <= k THEN t[i + j] - 48 ELSE 0
      num(a) == digit(a) * 100 + digit(a + 1) * 10 + digit(a + 2)
  IN <<0, 0, num(1) * 1000 + num(4), num(7)>>
UnitQ(p) == CASE p = 5 -> <<0, 0, 1000, 0>> [] p = 6 -> <<0, 0, 1, 0>> [] p = 7 -> <<0, 0, 0, 1>> [] OTHER -> <<0, 1, 0, 0>>
\* the seconds that a text may show at position i: two digits and as many decimals as the precision keeps.  A text that has one digit
\* or more than two is not of that form; what is tolerated for it is the number it begins with, cut or rounded to the precision.
Seconds(t, i, p) ==
  LET n == Decimals(p)
      wide == IF n = 0 THEN 2 ELSE 3 + n
      of(k) == LET s == NumAt(t, i, k, 0)
                   q == AddQ(<<0, s, 0, 0>>, FracAt(t, i + k, IF k > 2 THEN (IF n + 2 > k THEN n + 2 - k ELSE 0) ELSE n)) IN
               IF s > 59 THEN {} ELSE {q} \cup (IF k < 2 THEN {AddQ(q, UnitQ(p))} ELSE {})
      k2 == Run(t, i, 2) IN
  IF k2 = 0 /\ ~(i <= Len(t) /\ t[i] = DOT) THEN {} ELSE of(k2) \cup (IF n > 0 THEN of(Run(t, i, wide)) ELSE {})
\* what a text may be read as, the seconds being those at r.i: the possible values, and whether it is the canonical text of its value
None == [vs |-> {}, exact |-> FALSE]
ReadDate(t) == LET r == SignedFields(t, <<4, 2, 2>>, <<MINUS, MINUS>>) IN
  IF ~r.ok \/ ~ValidDate(r.v) THEN None ELSE [vs |-> {r.v}, exact |-> t = DateFmt(r.v)]
HourMinuteOk(v) == v[1] < 24 /\ v[2] < 60
At(c, h, m, q) == AddQ(<<DayNumber(c), h * 3600 + m * 60, 0, 0>>, q)
EPOCH == <<1970, 1, 1>>
ReadTime(t, p) == LET r == Fields(t, 1, <<2, 2, 0>>, <<COLON, COLON>>, <<>>) IN
  IF ~r.ok \/ ~HourMinuteOk(r.v) THEN None
  ELSE LET vs == {At(EPOCH, r.v[1], r.v[2], q) : q \in Seconds(t, r.i, p)} IN
       [vs |-> {FloorQ(v, p) : v \in vs}, exact |-> \E v \in vs : t = TimeFmt(v, IF p < 4 THEN 4 ELSE p)]
\* the instants a nanosecond clock can represent, from the first whole day on; its first, incomplete day is left open
ClockFirst == <<-106751, 0, 0, 0>>
ClockLast == <<106751, 85636, 854775, 807>>
ReadInstant(t, p) == LET r == SignedFields(t, <<4, 2, 2, 2, 2, 0>>, <<MINUS, MINUS, TEE, COLON, COLON>>) IN
  IF ~r.ok \/ ~ValidDate(SubSeq(r.v, 1, 3)) \/ ~HourMinuteOk(SubSeq(r.v, 4, 5)) THEN None
  ELSE LET c == SubSeq(r.v, 1, 3)
           vs == {v \in {At(c, r.v[4], r.v[5], q) : q \in Seconds(t, r.i, p)} : LeqQ(<<-106752, 0, 0, 0>>, v) /\ LeqQ(v, ClockLast)} IN
       [vs |-> vs, exact |-> \E v \in vs : t = InstantFmt(c, v, p) /\ LeqQ(ClockFirst, v)]
=============================================================================
