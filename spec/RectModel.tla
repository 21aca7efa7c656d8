------------------------------ MODULE RectModel ------------------------------
(* Model checking of the rectangle algebra: every operation against rectangles seen as sets of points (on a half-unit grid, so
   that interior points of the smallest overlaps are on it), for all pairs of proper and null rectangles of a bounded domain. *)
EXTENDS RectAlgebra, FiniteSets
CONSTANT N
Rects == {<<2 * x, 2 * y, 2 * w, 2 * h>> : x \in 0..N, y \in 0..N, w \in 1..N, h \in 1..N} \cup {NoRect}
Grid == (-1..(4 * N + 3)) \X (-1..(4 * N + 3))
Pts(r) == IF IsNull(r) THEN {} ELSE {p \in Grid : ContainsPoint(r, p)}
\* only the position and size of a relative to b matter (translation invariance is checked below)
VARIABLES a, b
vars == <<a, b>>
Init == a \in Rects /\ b \in {<<4, 4, 2 * w, 2 * h>> : w \in 1..N, h \in 1..N} \cup {NoRect}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Closure(r) == {p \in Grid : Left(r) <= p[1] /\ p[1] <= Right(r) /\ Top(r) <= p[2] /\ p[2] <= Bottom(r)}
PointSets ==
  /\ Pts(Intersection(a, b)) = Pts(a) \cap Pts(b)
  /\ Intersects(a, b) <=> (Pts(a) \cap Pts(b) # {})
  /\ ~IsNull(Intersection(a, b)) <=> Intersects(a, b)
  /\ Pts(a) \cup Pts(b) \subseteq Pts(Union(a, b))
  /\ \A r \in Rects : ~IsNull(r) /\ Pts(a) \cup Pts(b) \subseteq Pts(r) => Pts(Union(a, b)) \subseteq Pts(r)
  /\ (Proper(a) /\ Proper(b)) => (ContainsRect(a, b) <=> Closure(b) \subseteq Pts(a))
Symmetric == /\ Intersects(a, b) = Intersects(b, a)
             /\ Intersection(a, b) = Intersection(b, a)
             /\ Union(a, b) = Union(b, a)
Translations == \A dx, dy \in {-3, 0, 2} :
  LET T(r) == Translate(r, dx, dy) IN
  /\ Intersects(T(a), T(b)) = Intersects(a, b)
  /\ ContainsRect(T(a), T(b)) = ContainsRect(a, b)
  /\ Intersects(a, b) => Intersection(T(a), T(b)) = T(Intersection(a, b))
  /\ (Proper(a) /\ Proper(b)) => Union(T(a), T(b)) = T(Union(a, b))
=============================================================================
