----------------------------- MODULE RangeModel -----------------------------
(* Model checking of the range algebra itself: a range object under all setter histories, against the set-of-points reading
   of every operation, over a bounded domain of bounds. *)
EXTENDS RangeAlgebra, FiniteSets
CONSTANT N
Dom == -N..N
Ranges == {r \in Dom \X Dom : Ordered(r)}
Points(r) == {v \in (-N-1)..(N+1) : ContainsValue(r, v)}
VARIABLES a, b
vars == <<a, b>>
Init == a = EmptyRange /\ b = EmptyRange
Next == \/ \E v \in Dom : (a' = SetMin(a, v) \/ a' = SetMax(a, v)) /\ b' = b
        \/ \E v \in Dom : (b' = SetMin(b, v) \/ b' = SetMax(b, v)) /\ a' = a
Spec == Init /\ [][Next]_vars

AlwaysOrdered == Ordered(a) /\ Ordered(b)
SetterSets == [][\A v \in Dom : SetMin(a, v)[1] = v /\ SetMax(a, v)[2] = v]_vars
Symmetric == /\ Intersects(a, b) = Intersects(b, a)
             /\ Intersection(a, b) = Intersection(b, a)
             /\ Union(a, b) = Union(b, a)
PointSets ==
  /\ Points(Intersection(a, b)) = Points(a) \cap Points(b) \/ (IsNull(a) \/ IsNull(b))
  /\ (~IsNull(a) /\ ~IsNull(b)) => (Intersects(a, b) <=> Points(a) \cap Points(b) # {})
  /\ ContainsRange(Union(a, b), a) /\ ContainsRange(Union(a, b), b)
  /\ \A r \in Ranges : ContainsRange(r, a) /\ ContainsRange(r, b) => ContainsRange(r, Union(a, b))
  /\ (~IsNull(b)) => (ContainsRange(a, b) <=> Points(b) \subseteq Points(a))
  /\ Cardinality(Points(a)) = Length(a)
Clamps == \A v \in (-N-1)..(N+1) : LET c == Clamp(a, v) IN
            /\ a[1] <= c /\ c <= a[2]
            /\ \A w \in a[1]..a[2] : (v - c) * (v - c) <= (v - w) * (v - w)
Maps == MapQuarter(a, 0) = 4 * a[1] /\ MapQuarter(a, 4) = 4 * a[2]
=============================================================================
