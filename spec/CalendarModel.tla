--------------------------- MODULE CalendarModel ---------------------------
(* Model checking of Calendar: walking day by day from 1 January of a year, by the rules of the calendar alone, the closed formula
   for the day number and the weekday stay right; four centuries are a whole cycle, so this decides the formula for every date. *)
EXTENDS Calendar
CONSTANTS From, Years
VARIABLES c, n
vars == <<c, n>>
Init == c = <<From, 1, 1>> /\ n = DayNumber(<<From, 1, 1>>)
NextDay == IF c[3] < DaysIn(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
           ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
Next == c[1] < From + Years /\ c' = NextDay /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Formula == DayNumber(c) = n
Shift == DayNumber(<<c[1] + 400, c[2], c[3]>>) = n + 146097
Week == [][Weekday(n') = (Weekday(n) + 1) % 7]_vars
Later == [][DateLess(c, c') /\ ~DateLess(c', c)]_vars
Known == /\ DayNumber(<<1970, 1, 1>>) = 0 /\ Weekday(0) = 4
         /\ DayNumber(<<2000, 3, 1>>) = 11017 /\ DayNumber(<<1582, 10, 15>>) = -141427 /\ Weekday(-141427) = 5
=============================================================================
