------------------------------ MODULE SegModel ------------------------------
(* Model checking of the segment operators: for all pairs of segments of a small grid the parametric decision agrees with a
   purely topological one (orientations), does not depend on the order of segments or end points, and agrees with the
   arbitrary precision version. *)
EXTENDS Segments
CONSTANT N
VARIABLES p, q
vars == <<p, q>>
C == 0..N
Init == p \in C \X C \X C \X C /\ q \in C \X C \X C \X C /\ p[1] <= 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* two non-parallel segments share a point iff neither lies strictly on one side of the other's line
Topological == LET o(a, b, c) == Sgn(Orient(a, b, c)) IN
  /\ ~Parallel(p, q)
  /\ o(Start(p), End(p), Start(q)) * o(Start(p), End(p), End(q)) <= 0
  /\ o(Start(q), End(q), Start(p)) * o(Start(q), End(q), End(p)) <= 0
Agrees == Meet(p, q) <=> Topological
OrderFree == /\ Meet(p, q) = Meet(q, p) /\ Meet(Flip(p), q) = Meet(p, q) /\ Meet(p, Flip(q)) = Meet(p, q)
BigAgrees == Meet(p, q) = BMeet(p, q)
SharedEnd == (~Parallel(p, q) /\ (Start(p) = Start(q) \/ Start(p) = End(q) \/ End(p) = Start(q) \/ End(p) = End(q))) => Meet(p, q)
=============================================================================
