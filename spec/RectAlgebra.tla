----------------------------- MODULE RectAlgebra -----------------------------
(* Rectangles <<x, y, w, h>> (position and size) as open sets of points. *)
EXTENDS Integers

LOCAL Mn(a, b) == IF b < a THEN b ELSE a
LOCAL Mx(a, b) == IF a < b THEN b ELSE a
NoRect == <<0, 0, 0, 0>>
\* a rectangle with extent, a null one; those with only one positive dimension are neither
Proper(r) == r[3] > 0 /\ r[4] > 0
IsNull(r) == r[3] <= 0 /\ r[4] <= 0
Left(r) == r[1]
Top(r) == r[2]
Right(r) == r[1] + r[3]
Bottom(r) == r[2] + r[4]
ContainsPoint(r, p) == Left(r) < p[1] /\ p[1] < Right(r) /\ Top(r) < p[2] /\ p[2] < Bottom(r)
ContainsRect(a, b) == Left(a) < Left(b) /\ Right(b) < Right(a) /\ Top(a) < Top(b) /\ Bottom(b) < Bottom(a)
Overlap(a, b) == Left(a) < Right(b) /\ Left(b) < Right(a) /\ Top(a) < Bottom(b) /\ Top(b) < Bottom(a)
Span(l, t, r, b) == <<l, t, r - l, b - t>>
Intersection(a, b) == IF ~IsNull(a) /\ ~IsNull(b) /\ Overlap(a, b)
                      THEN Span(Mx(Left(a), Left(b)), Mx(Top(a), Top(b)), Mn(Right(a), Right(b)), Mn(Bottom(a), Bottom(b))) ELSE NoRect
Intersects(a, b) == ~IsNull(a) /\ ~IsNull(b) /\ Overlap(a, b)
Union(a, b) == IF IsNull(b) THEN a ELSE IF IsNull(a) THEN b
               ELSE Span(Mn(Left(a), Left(b)), Mn(Top(a), Top(b)), Mx(Right(a), Right(b)), Mx(Bottom(a), Bottom(b)))
Translate(r, dx, dy) == <<r[1] + dx, r[2] + dy, r[3], r[4]>>
Area(r) == r[3] * r[4]
\* twice the centre
Centre2(r) == <<2 * r[1] + r[3], 2 * r[2] + r[4]>>
TopLeft(r) == <<Left(r), Top(r)>>
TopRight(r) == <<Right(r), Top(r)>>
BottomLeft(r) == <<Left(r), Bottom(r)>>
BottomRight(r) == <<Right(r), Bottom(r)>>
=============================================================================
