---------------------------- MODULE GeometryText ----------------------------
(* What the text of a geometric value shows: its current coordinates, all of them, in order, with the sign and every digit.
   A number is <<neg, h, m, l, micro>>: the whole part is h*10^18 + m*10^9 + l, and micro the millionths, or -1 where the type has no fractions. *)
EXTENDS DateText
Whole(n) == IF n[2] > 0 THEN Dec(n[2]) \o Pad(n[3], 9) \o Pad(n[4], 9)
            ELSE IF n[3] > 0 THEN Dec(n[3]) \o Pad(n[4], 9) ELSE Dec(n[4])
NumText(n) == (IF n[1] = 1 THEN <<MINUS>> ELSE <<>>) \o Whole(n) \o (IF n[5] < 0 THEN <<>> ELSE <<DOT>> \o Pad(n[5], 6))
OPEN == <<40>>
CLOSE == <<41>>
PointText(x, y) == OPEN \o NumText(x) \o <<44, 32>> \o NumText(y) \o CLOSE
SizeText(w, h) == OPEN \o NumText(w) \o <<120>> \o NumText(h) \o CLOSE
RangeText(x, y) == OPEN \o NumText(x) \o <<COLON>> \o NumText(y) \o CLOSE
LineText(o) == OPEN \o PointText(o[1], o[2]) \o <<32, COLON, 32>> \o PointText(o[3], o[4]) \o CLOSE
RectText(o) == PointText(o[1], o[2]) \o <<32, COLON, 32>> \o SizeText(o[3], o[4])
ValueText(kind, o) == CASE kind = "point" -> PointText(o[1], o[2]) [] kind = "size" -> SizeText(o[1], o[2]) [] kind = "range" -> RangeText(o[1], o[2])
                        [] kind = "line" -> LineText(o) [] kind = "rect" -> RectText(o) [] OTHER -> <<>>
\* the order of the numbers
MagLess(u, v) == \E i \in 2..5 : u[i] < v[i] /\ \A j \in 2..(i - 1) : u[j] = v[j]
NumLess(u, v) == IF u[1] # v[1] THEN u[1] = 1 ELSE IF u[1] = 1 THEN MagLess(v, u) ELSE MagLess(u, v)
\* setters: the coordinates is of o become vs; the bounds of a range move together where they would cross
SetCoords(o, is, vs) == [i \in DOMAIN o |-> IF \E j \in DOMAIN is : is[j] = i THEN vs[CHOOSE j \in DOMAIN is : is[j] = i] ELSE o[i]]
SetLow(o, v) == <<v, IF NumLess(o[2], v) THEN v ELSE o[2]>>
SetHigh(o, v) == <<IF NumLess(v, o[1]) THEN v ELSE o[1], v>>
=============================================================================
