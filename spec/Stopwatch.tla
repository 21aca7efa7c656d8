------------------------------ MODULE Stopwatch ------------------------------
(* Several stopwatches under a steady clock.  Times are <<seconds, nanoseconds>>.  The wall clock may be set at will: it does not matter. *)
EXTENDS Integers, Sequences
VARIABLES now, start
svars == <<now, start>>
Sec == 1000000000
Minus(x, y) == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>> ELSE <<x[1] - y[1] - 1, x[2] + Sec - y[2]>>
Plus(x, y) == IF x[2] + y[2] >= Sec THEN <<x[1] + y[1] + 1, x[2] + y[2] - Sec>> ELSE <<x[1] + y[1], x[2] + y[2]>>
Elapsed(i) == Minus(now, start[i])
\* the whole number of units in duration e, as <<those of the seconds, those of the fraction>> for units below a second (per: how many of them a second has)
InFraction(e, per) == <<e[1], e[2] \div (Sec \div per)>>
InSeconds(e, unit) == e[1] \div unit
SInit(t) == now = t /\ start = <<>>
New == start' = Append(start, now) /\ UNCHANGED now
Reset(i) == start' = [start EXCEPT ![i] = now] /\ UNCHANGED now
Pass(d) == now' = Plus(now, d) /\ UNCHANGED start
=============================================================================
