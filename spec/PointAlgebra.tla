---------------------------- MODULE PointAlgebra ----------------------------
(* Points (and sizes) as integer vectors; for floating point coordinates all numbers are given in fixed units in which they are whole. *)
EXTENDS Integers, FiniteSets
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
AbsI(x) == IF x < 0 THEN -x ELSE x
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* division with truncation towards zero
Quot(x, y) == SgnI(x) * SgnI(y) * (AbsI(x) \div AbsI(y))
\* times the scalar k/kd
Times(p, k, kd, exact) == <<Quot(p[1] * k, kd), Quot(p[2] * k, kd)>>
DividedBy(p, k, kd) == <<Quot(p[1] * kd, k), Quot(p[2] * kd, k)>>
\* the length of v: rounded down for whole coordinates; otherwise given in thousandths of the unit, checked to a tenth of the unit
IsDistance(d, v, exact) == LET s == v[1] * v[1] + v[2] * v[2] IN
   IF exact THEN d >= 0 /\ d * d <= s /\ s < (d + 1) * (d + 1)
   ELSE d >= 0 /\ LET u == d \div 100 IN (u = 0 \/ (u - 1) * (u - 1) <= 100 * s) /\ 100 * s <= (u + 2) * (u + 2)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
