------------------------------ MODULE Segments ------------------------------
(* Line segments <<x1, y1, x2, y2>> with integer coordinates, decided exactly. *)
EXTENDS RectAlgebra, Limbs

\* cross products of the direction of p with the direction of q / with the way from the start of p to the start of q
Den(p, q) == (p[1] - p[3]) * (q[2] - q[4]) - (p[2] - p[4]) * (q[1] - q[3])
TNum(p, q) == (p[1] - q[1]) * (q[2] - q[4]) - (p[2] - q[2]) * (q[1] - q[3])
UNum(p, q) == (p[2] - p[4]) * (p[1] - q[1]) - (p[1] - p[3]) * (p[2] - q[2])
\* 0 <= n/d <= 1
InUnit(n, d) == IF d > 0 THEN 0 <= n /\ n <= d ELSE d < 0 /\ d <= n /\ n <= 0
Parallel(p, q) == Den(p, q) = 0
Meet(p, q) == ~Parallel(p, q) /\ InUnit(TNum(p, q), Den(p, q)) /\ InUnit(UNum(p, q), Den(p, q))
\* z (in 1/1000) is the meeting point up to two thousandths; coordinates up to 50
Near(z, p, q) ==
  LET d == Den(p, q)
      t == TNum(p, q)
      ad == IF d < 0 THEN -d ELSE d
      ok(v, s, e) == LET diff == v * d - 1000 * (s * d + t * (e - s)) IN -2 * ad <= diff /\ diff <= 2 * ad
  IN ok(z[1], p[1], p[3]) /\ ok(z[2], p[2], p[4])
\* the same for coordinates of any size
BDen(p, q) == Sub(Mul(Big(p[1] - p[3]), Big(q[2] - q[4])), Mul(Big(p[2] - p[4]), Big(q[1] - q[3])))
BTNum(p, q) == Sub(Mul(Big(p[1] - q[1]), Big(q[2] - q[4])), Mul(Big(p[2] - q[2]), Big(q[1] - q[3])))
BUNum(p, q) == Sub(Mul(Big(p[2] - p[4]), Big(p[1] - q[1])), Mul(Big(p[1] - p[3]), Big(p[2] - q[2])))
BInUnit(n, d) == IF Sign(d) > 0 THEN Sign(n) >= 0 /\ Leq(n, d) ELSE Sign(d) < 0 /\ Leq(d, n) /\ Sign(n) <= 0
BMeet(p, q) == LET d == BDen(p, q) IN Sign(d) # 0 /\ BInUnit(BTNum(p, q), d) /\ BInUnit(BUNum(p, q), d)
\* z = <<whole part, thousandths>>
BNear(z, p, q) ==
  LET d == BDen(p, q)
      t == BTNum(p, q)
      tol == Mul(Big(2), Abs(d))
      K == Big(1000)
      ok(v, s, e) == LET x == Add(Mul(Big(v[1]), K), Big(v[2]))
                         diff == Sub(Mul(x, d), Mul(K, Add(Mul(Big(s), d), Mul(t, Big(e - s)))))
                     IN Leq(Abs(diff), tol)
  IN ok(z[1], p[1], p[3]) /\ ok(z[2], p[2], p[4])
\* segment against rectangle
Sides(r) == {TopLeft(r) \o TopRight(r), TopRight(r) \o BottomRight(r), BottomRight(r) \o BottomLeft(r), BottomLeft(r) \o TopLeft(r)}
MeetsRect(r, s) == \/ ContainsPoint(r, <<s[1], s[2]>>) \/ ContainsPoint(r, <<s[3], s[4]>>)
                   \/ \E side \in Sides(r) : Meet(s, side)
BMeetsRect(r, s) == \/ ContainsPoint(r, <<s[1], s[2]>>) \/ ContainsPoint(r, <<s[3], s[4]>>)
                    \/ \E side \in Sides(r) : BMeet(s, side)
Start(s) == <<s[1], s[2]>>
End(s) == <<s[3], s[4]>>
Flip(s) == <<s[3], s[4], s[1], s[2]>>
SameSegment(p, q) == p = q \/ p = Flip(q)
=============================================================================
