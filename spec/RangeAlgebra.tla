---------------------------- MODULE RangeAlgebra ----------------------------
(* Numeric ranges <<lo, hi>> with lo <= hi, as half-open intervals of numbers. *)
EXTENDS Integers

Ordered(r) == r[1] <= r[2]
EmptyRange == <<0, 0>>
Min2(a, b) == IF b < a THEN b ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
SetMin(r, v) == <<v, Max2(r[2], v)>>
SetMax(r, v) == <<Min2(r[1], v), v>>
Length(r) == r[2] - r[1]
IsNull(r) == r[1] = r[2]
ContainsValue(r, v) == r[1] <= v /\ v < r[2]
ContainsRange(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
Intersects(a, b) == a[1] < b[2] /\ b[1] < a[2]
Clamp(r, v) == IF v < r[1] THEN r[1] ELSE IF r[2] < v THEN r[2] ELSE v
Intersection(a, b) == IF Intersects(a, b) THEN <<Max2(a[1], b[1]), Min2(a[2], b[2])>> ELSE EmptyRange
Union(a, b) == <<Min2(a[1], b[1]), Max2(a[2], b[2])>>
\* map of k/4, in quarters
MapQuarter(r, k) == 4 * r[1] + k * (r[2] - r[1])
=============================================================================
