---------------------------- MODULE TraceDateTime ----------------------------
(* A client computing with two dates D, two times of day T, two date-times X and two durations L.  The specification state holds
   the eight values; every operation acts on it as the calendar and nanosecond arithmetic say, every observation is recomputed. *)
EXTENDS DateText, TLC, Json, IOUtils

VARIABLES tid, l, D, T, X, L
regs == <<D, T, X, L>>
tvars == <<tid, l, D, T, X, L>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
B(x) == x = 1
NoTime == <<>>     \* a default constructed time
NoInstant == <<>>  \* a default constructed date-time
TInit == /\ tid \in DOMAIN Traces /\ l = 1
         /\ D = <<<<1970, 1, 1>>, <<1970, 1, 1>>>> /\ T = <<ZeroQ, ZeroQ>> /\ X = <<ZeroQ, ZeroQ>> /\ L = <<ZeroQ, ZeroQ>>
SetD(v) == D' = [D EXCEPT ![Ev.k] = v] /\ UNCHANGED <<T, X, L>>
SetT(v) == T' = [T EXCEPT ![Ev.k] = v] /\ UNCHANGED <<D, X, L>>
SetX(v) == X' = [X EXCEPT ![Ev.k] = v] /\ UNCHANGED <<D, T, L>>
SetL(v) == L' = [L EXCEPT ![Ev.k] = v] /\ UNCHANGED <<D, T, X>>
IsDay(v, n) == ValidDate(v) /\ DayNumber(v) = n

(* ---- durations ---- *)
LOps ==
  /\ Ev.e = "L"
  /\ CASE Ev.op = "new" -> SetL(SumQ(Ev.parts, 1))
       [] Ev.op = "add" -> SetL(AddQ(L[1], L[2]))
       [] Ev.op = "sub" -> SetL(SubQ(L[Ev.i], L[Ev.j]))
       [] Ev.op = "mul" -> SetL(MulQ(L[Ev.i], Ev.m))
       [] Ev.op = "div" -> IF Ev.m = 0 THEN Ev.r = "domain" /\ UNCHANGED regs ELSE Ev.r = "ok" /\ IsQuotient(Ev.v, L[Ev.i], Ev.m) /\ SetL(Ev.v)
       [] Ev.op = "dates" -> SetL(<<DayNumber(D[Ev.i]) - DayNumber(D[Ev.j]), 0, 0, 0>>)
       [] Ev.op = "instants" -> SetL(SubQ(X[Ev.i], X[Ev.j]))
       [] Ev.op = "times-" -> SetL(SubQ(T[Ev.i], T[Ev.j]))
       [] Ev.op = "times+" -> SetL(AddQ(T[Ev.i], T[Ev.j]))
       [] OTHER -> FALSE
LLook ==
  /\ Ev.e = "Llook" /\ UNCHANGED regs
  /\ LET q == L[Ev.k] IN
     /\ Ev.q = q /\ B(Ev.null) = (q = ZeroQ)
     /\ Ev.f = <<q[1] * 24 + HourOf(q), MinuteOf(q), q[2] % 60, q[3] \div 1000, q[3] % 1000, q[4]>>
     /\ IsTotal(Ev.y, q, YEAR) /\ IsTotal(Ev.mo, q, MONTH)
     /\ \A i \in DOMAIN Ev.tot : Ev.tot[i] = TruncQ(q, i)
     /\ \A i \in DOMAIN Ev.txt : Ev.txt[i] = DeltaFmt(q, i + 3)
     /\ Ev.os = DeltaFmt(q, 5)
     /\ B(Ev.eq) = (L[1] = L[2]) /\ B(Ev.ne) = (L[1] # L[2])

(* ---- dates ---- *)
DOps ==
  /\ Ev.e = "D"
  /\ CASE Ev.op = "new" -> SetD(Ev.v)
       [] Ev.op = "instant" -> IsDay(Ev.v, Ev.q[1]) /\ SetD(Ev.v)
       [] Ev.op = "add" -> IsDay(Ev.v, DayNumber(D[Ev.i]) + L[Ev.j][1]) /\ SetD(Ev.v)
       [] Ev.op = "sub" -> IsDay(Ev.v, DayNumber(D[Ev.i]) + NegQ(L[Ev.j])[1]) /\ SetD(Ev.v)
       [] Ev.op = "of" -> IsDay(Ev.v, X[Ev.i][1]) /\ SetD(Ev.v)
       [] Ev.op = "today" -> (\E n \in Ev.lo..Ev.hi : IsDay(Ev.v, n)) /\ SetD(Ev.v)
       [] OTHER -> FALSE
DLook ==
  /\ Ev.e = "Dlook" /\ UNCHANGED regs
  /\ LET c == D[Ev.k] IN
     /\ Ev.v = c /\ B(Ev.valid) = ValidDate(c)
     /\ ValidDate(c) => /\ Ev.days = DayNumber(c) /\ Ev.wd = Weekday(DayNumber(c)) /\ Ev.iso = IsoWeekday(DayNumber(c))
                        /\ (c[1] >= 0 /\ c[1] <= 9999) => Ev.txt = DateFmt(c) /\ Ev.os = DateFmt(c) /\ Ev.ftxt = Render(Ev.fmt, 1, c, ZeroQ, 4)
     /\ B(Ev.eq) = (D[1] = D[2]) /\ B(Ev.ne) = (D[1] # D[2]) /\ B(Ev.lt) = DateLess(D[1], D[2]) /\ B(Ev.gt) = DateLess(D[2], D[1])

(* ---- times of day ---- *)
TOps ==
  /\ Ev.e = "T"
  /\ CASE Ev.op = "none" -> SetT(NoTime)
       [] Ev.op = "new" -> SetT(Mod24(SumQ(Ev.parts, 1)))
       [] Ev.op = "add" -> SetT(Mod24(AddQ(T[Ev.i], L[Ev.j])))
       [] Ev.op = "sub" -> SetT(Mod24(SubQ(T[Ev.i], L[Ev.j])))
       [] Ev.op = "of" -> SetT(<<0, X[Ev.i][2], X[Ev.i][3], X[Ev.i][4]>>)
       [] Ev.op = "now" -> /\ Ev.q = FloorQ(Ev.q, Ev.p) /\ Ev.q[1] = 0
                           /\ \/ Ev.lo[1] # Ev.hi[1]
                              \/ LeqQ(<<0, FloorQ(Ev.lo, Ev.p)[2], FloorQ(Ev.lo, Ev.p)[3], FloorQ(Ev.lo, Ev.p)[4]>>, Ev.q) /\ LeqQ(Ev.q, <<0, Ev.hi[2], Ev.hi[3], Ev.hi[4]>>)
                           /\ SetT(Ev.q)
       [] OTHER -> FALSE
TLook ==
  /\ Ev.e = "Tlook" /\ UNCHANGED regs
  /\ LET t == T[Ev.k] IN
     IF t = NoTime THEN ~B(Ev.valid)
     ELSE LET a == AbsQ(t) IN
          /\ Ev.q = t /\ B(Ev.valid)
          /\ Ev.f = <<HourOf(a), MinuteOf(a), a[2] % 60, a[3] \div 1000>> /\ Ev.us = a[3] /\ Ev.ns = <<0, 0, a[3], a[4]>>
          /\ ~NegativeQ(t) => /\ \A i \in DOMAIN Ev.txt : Ev.txt[i] = TimeFmt(t, i + 1)
                              /\ Ev.os = TimeFmt(t, 5) /\ Ev.ftxt = Render(Ev.fmt, 1, <<>>, FloorQ(t, Ev.fp), Ev.fp)
          /\ T[3 - Ev.k] # NoTime => B(Ev.eq) = (T[1] = T[2]) /\ B(Ev.ne) = (T[1] # T[2]) /\ B(Ev.lt) = LessQ(T[1], T[2]) /\ B(Ev.gt) = LessQ(T[2], T[1])

(* ---- date-times ---- *)
XOps ==
  /\ Ev.e = "X"
  /\ CASE Ev.op = "none" -> SetX(NoInstant)
       [] Ev.op = "new" -> SetX(Ev.q)
       [] Ev.op = "date" -> SetX(<<DayNumber(D[Ev.i]), 0, 0, 0>>)
       [] Ev.op = "time" -> SetX(T[Ev.i])
       [] Ev.op = "both" -> SetX(AddQ(<<DayNumber(D[Ev.i]), 0, 0, 0>>, T[Ev.j]))
       [] Ev.op = "fields" -> SetX(AddQ(<<DayNumber(Ev.c), 0, 0, 0>>, SumQ(Ev.parts, 1)))
       [] Ev.op = "add" -> SetX(AddQ(X[Ev.i], L[Ev.j]))
       [] Ev.op = "sub" -> SetX(SubQ(X[Ev.i], L[Ev.j]))
       [] Ev.op = "now" -> /\ Ev.q = FloorQ(Ev.q, Ev.p) /\ LeqQ(FloorQ(Ev.lo, Ev.p), Ev.q) /\ LeqQ(Ev.q, Ev.hi) /\ SetX(Ev.q)
       [] OTHER -> FALSE
XLook ==
  /\ Ev.e = "Xlook" /\ UNCHANGED regs
  /\ LET x == X[Ev.k] IN
     IF x = NoInstant THEN ~B(Ev.valid)
     ELSE /\ Ev.q = x /\ (LessQ(x, ClockLast) => B(Ev.valid))
          /\ IsDay(Ev.c, x[1]) /\ Ev.t = <<0, x[2], x[3], x[4]>>
          /\ \A i \in DOMAIN Ev.txt : Ev.txt[i] = InstantFmt(Ev.c, x, i + 3)
          /\ Ev.os = InstantFmt(Ev.c, x, 5)
          /\ Ev.ftxt = Render(Ev.fmt, 1, Ev.c, FloorQ(<<0, x[2], x[3], x[4]>>, Ev.fp), Ev.fp)
          /\ X[3 - Ev.k] # NoInstant => B(Ev.eq) = (X[1] = X[2]) /\ B(Ev.ne) = (X[1] # X[2]) /\ B(Ev.lt) = LessQ(X[1], X[2]) /\ B(Ev.gt) = LessQ(X[2], X[1])

(* ---- reading texts: canonical ones give exactly their value, others their lenient reading or an exception ---- *)
Reads(r) == (Ev.r = "ok" /\ Ev.v \in r.vs) \/ (Ev.r = "throw" /\ ~r.exact)
PDate == Ev.e = "pd" /\ UNCHANGED regs /\ Reads(ReadDate(Ev.t))
PTime == Ev.e = "pt" /\ UNCHANGED regs /\ Reads(ReadTime(Ev.t, Ev.p))
PInstant == Ev.e = "px" /\ UNCHANGED regs /\ Reads(ReadInstant(Ev.t, Ev.p))
\* what was printed in some format and read in the same format
PBack == /\ Ev.e = "back" /\ UNCHANGED regs /\ Ev.r = "ok"
         /\ CASE Ev.w = "D" -> Ev.v = D[Ev.k]
              [] Ev.w = "T" -> Ev.v = FloorQ(T[Ev.k], Ev.p)
              [] Ev.w = "X" -> Ev.v = FloorQ(X[Ev.k], Ev.p)
              [] OTHER -> FALSE

(* ---- tables ---- *)
CalRow(r) ==
  LET c == <<r[1], r[2], r[3]>>
      n == DayNumber(c) IN
  /\ B(r[4]) = ValidDate(c)
  /\ ValidDate(c) => /\ r[5] = n /\ r[6] = Weekday(n) /\ r[7] = IsoWeekday(n)
                     /\ IsDay(<<r[8], r[9], r[10]>>, n + 1) /\ IsDay(<<r[11], r[12], r[13]>>, n - 1)
Cal == Ev.e = "cal" /\ UNCHANGED regs /\ \A i \in DOMAIN Ev.rows : CalRow(Ev.rows[i])
ClockRow(r) == LET f == TimeFmt(<<0, r[1], 0, 0>>, 4) IN r[2] = f /\ r[3] = f /\ r[4] = r[1] /\ r[5] = r[1]
ClockTable == Ev.e = "clock" /\ UNCHANGED regs /\ \A i \in DOMAIN Ev.rows : ClockRow(Ev.rows[i])

TNext == More /\ l' = l + 1 /\ UNCHANGED tid /\ (LOps \/ LLook \/ DOps \/ DLook \/ TOps \/ TLook \/ XOps \/ XLook \/ PDate \/ PTime \/ PInstant \/ PBack \/ Cal \/ ClockTable)
TSpec == TInit /\ [][TNext]_tvars
Inv == \A k \in 1..2 : /\ IsQ(L[k])
                       /\ (T[k] # NoTime) => IsQ(T[k]) /\ LessQ(AbsQ(T[k]), <<1, 0, 0, 0>>)
                       /\ (X[k] # NoInstant) => IsQ(X[k])
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
