------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar: dates <<y, m, d>>, day 0 is 1970-01-01. *)
EXTENDS Integers

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
MinYear == -32767
MaxYear == 32767
ValidDate(c) == c[1] >= MinYear /\ c[1] <= MaxYear /\ c[2] >= 1 /\ c[2] <= 12 /\ c[3] >= 1 /\ c[3] <= DaysIn(c[1], c[2])
DayNumber(c) ==
  LET y == IF c[2] <= 2 THEN c[1] - 1 ELSE c[1]
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * ((c[2] + 9) % 12) + 2) \div 5 + c[3] - 1
  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
Weekday(n) == (n + 4) % 7           \* of day number n; 0 is Sunday
IsoWeekday(n) == IF Weekday(n) = 0 THEN 7 ELSE Weekday(n)
DateLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
=============================================================================
