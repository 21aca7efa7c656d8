---------------------------- MODULE TraceGeometry ----------------------------
(* Recorded histories of the real range, rectangle, line, point and size types against the algebra modules.
   Objects a and b are specification state: setters act on them as the model says and every query is recomputed. *)
EXTENDS Sequences, Json, IOUtils, TLC, Integers, FiniteSets

R == INSTANCE RangeAlgebra
Q == INSTANCE RectAlgebra
S == INSTANCE Segments
P == INSTANCE PointAlgebra

VARIABLES tid, l, a, b
tvars == <<tid, l, a, b>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Par == Traces[tid].p
More == l <= Len(Traces[tid].ev)
B(x) == x = 1
All(s, F(_)) == \A i \in DOMAIN s : F(s[i])

TInit == tid \in DOMAIN Traces /\ l = 1 /\ a = <<0, 0>> /\ b = <<0, 0>>

(* ---- ranges: p.kind = "range" ---- *)
RNew == /\ Ev.e = "new" /\ Ev.r \in {0, 1}
        /\ IF Ev.r = 0 THEN a' = Ev.v /\ b' = b ELSE b' = Ev.v /\ a' = a
RSet == /\ Ev.e \in {"setmin", "setmax"}
        /\ LET f(x) == IF Ev.e = "setmin" THEN R!SetMin(x, Ev.v) ELSE R!SetMax(x, Ev.v) IN
           IF Ev.r = 0 THEN a' = f(a) /\ b' = b ELSE b' = f(b) /\ a' = a
RAssign == Ev.e = "assign" /\ IF Ev.r = 0 THEN a' = b /\ b' = b ELSE b' = a /\ a' = a
RAsk ==
  /\ Ev.e = "ask" /\ UNCHANGED <<a, b>>
  /\ Ev.a = a /\ Ev.b = b
  /\ R!Ordered(a) /\ R!Ordered(b)
  /\ B(Ev.na) = R!IsNull(a) /\ (IF Ev.nolen = 1 THEN TRUE ELSE Ev.len = R!Length(a))
  /\ B(Ev.eq) = (a = b) /\ B(Ev.ne) = (a # b)
  /\ B(Ev.cab) = R!ContainsRange(a, b) /\ B(Ev.cba) = R!ContainsRange(b, a)
  /\ B(Ev.iab) = R!Intersects(a, b) /\ B(Ev.iba) = R!Intersects(a, b)
  /\ Ev.xab = R!Intersection(a, b) /\ Ev.xba = R!Intersection(a, b)
  /\ Ev.uab = R!Union(a, b) /\ Ev.uba = R!Union(a, b)
  /\ All(Ev.vals, LAMBDA t : B(t[2]) = R!ContainsValue(a, t[1]) /\ t[3] = R!Clamp(a, t[1]))
  /\ All(Ev.maps, LAMBDA t : t[2] = R!MapQuarter(a, t[1]))

(* ---- rectangles: p.kind = "rect"; setters ---- *)
QNew == /\ Ev.e = "rnew" /\ IF Ev.r = 0 THEN a' = Ev.v /\ b' = b ELSE b' = Ev.v /\ a' = a
QSet == /\ Ev.e = "rset"
        /\ LET f(x) == CASE Ev.op = "width" -> [x EXCEPT ![3] = Ev.v[1]]
                         [] Ev.op = "height" -> [x EXCEPT ![4] = Ev.v[1]]
                         [] Ev.op = "size" -> <<x[1], x[2], Ev.v[1], Ev.v[2]>>
                         [] Ev.op = "position" -> <<Ev.v[1], Ev.v[2], x[3], x[4]>>
                         [] Ev.op = "translate" -> Q!Translate(x, Ev.v[1], Ev.v[2])
                         [] OTHER -> <<>> IN
           IF Ev.r = 0 THEN a' = f(a) /\ b' = b ELSE b' = f(b) /\ a' = a
QAsk ==
  /\ Ev.e = "rask" /\ UNCHANGED <<a, b>>
  /\ Ev.a = a /\ Ev.b = b
  /\ B(Ev.na) = Q!IsNull(a) /\ B(Ev.nb) = Q!IsNull(b)
  /\ B(Ev.eq) = (a = b) /\ B(Ev.ne) = (a # b)
  /\ Ev.tl = Q!TopLeft(a) /\ Ev.tr = Q!TopRight(a) /\ Ev.bl = Q!BottomLeft(a) /\ Ev.br = Q!BottomRight(a)
  /\ (IF Ev.c2 = <<>> THEN TRUE ELSE Ev.c2 = Q!Centre2(a)) /\ (IF Ev.area = -1 THEN TRUE ELSE Ev.area = Q!Area(a))
  /\ Ev.tr2 = Q!Translate(a, Ev.d[1], Ev.d[2])
  /\ B(Ev.iab) = Q!Intersects(a, b) /\ B(Ev.iba) = Q!Intersects(a, b)
  /\ Ev.xab = Q!Intersection(a, b) /\ Ev.xba = Q!Intersection(a, b)
  /\ Ev.uab = Q!Union(a, b) /\ ((Q!IsNull(a) /\ Q!IsNull(b)) \/ Ev.uba = Q!Union(a, b))
  /\ (Q!Proper(a) /\ Q!Proper(b)) => B(Ev.cab) = Q!ContainsRect(a, b) /\ B(Ev.cba) = Q!ContainsRect(b, a)
  /\ All(Ev.pts, LAMBDA t : B(t[3]) = Q!ContainsPoint(a, t))

(* ---- segments: every order of the arguments ---- *)
SAsk ==
  /\ Ev.e = "seg" /\ UNCHANGED <<a, b>>
  /\ LET m == IF Ev.big = 1 THEN S!BMeet(Ev.p, Ev.q) ELSE S!Meet(Ev.p, Ev.q) IN
     /\ \A i \in DOMAIN Ev.hits : B(Ev.hits[i]) = m
     /\ \A i \in DOMAIN Ev.at : IF m THEN Ev.at[i] # <<>> /\ (IF Ev.big = 1 THEN S!BNear(Ev.at[i], Ev.p, Ev.q) ELSE S!Near(Ev.at[i], Ev.p, Ev.q))
                                ELSE Ev.at[i] = <<>>
  /\ B(Ev.eq) = S!SameSegment(Ev.p, Ev.q) /\ B(Ev.ne) = ~S!SameSegment(Ev.p, Ev.q)
  /\ B(Ev.null) = (S!Start(Ev.p) = S!End(Ev.p))
  /\ B(Ev.vert) = (Ev.p[1] = Ev.p[3]) /\ B(Ev.hor) = (Ev.p[2] = Ev.p[4])
SRect ==
  /\ Ev.e = "segrect" /\ UNCHANGED <<a, b>>
  /\ \A i \in DOMAIN Ev.hits : B(Ev.hits[i]) = IF Ev.big = 1 THEN S!BMeetsRect(Ev.r, Ev.s) ELSE S!MeetsRect(Ev.r, Ev.s)

(* ---- points, sizes, minimum and maximum ---- *)
PAsk ==
  /\ Ev.e = "pt" /\ UNCHANGED <<a, b>>
  /\ B(Ev.eq) = (Ev.p = Ev.q) /\ B(Ev.ne) = (Ev.p # Ev.q) /\ B(Ev.org) = (Ev.p = <<0, 0>>)
  /\ All(Ev.plus, LAMBDA t : t = P!Plus(Ev.p, Ev.q))
  /\ All(Ev.minus, LAMBDA t : t = P!Minus(Ev.p, Ev.q))
  /\ All(Ev.times, LAMBDA t : t = P!Times(Ev.p, Ev.k, Ev.kd, Par.exact = 1))
  /\ All(Ev.div, LAMBDA t : t = P!DividedBy(Ev.p, Ev.k, Ev.kd))
  /\ IF Par.nodist = 1 THEN TRUE ELSE /\ P!IsDistance(Ev.dist, P!Minus(Ev.p, Ev.q), Par.exact = 1) /\ P!IsDistance(Ev.dist2, P!Minus(Ev.p, Ev.q), Par.exact = 1)
                                      /\ P!IsDistance(Ev.dorg, Ev.p, Par.exact = 1)
  /\ Ev.sets = Ev.q
  /\ B(Ev.snull) = (Ev.p = <<0, 0>>) /\ B(Ev.seq) = (Ev.p = Ev.q) /\ B(Ev.sne) = (Ev.p # Ev.q) /\ Ev.ssets = Ev.q
PMinMax ==
  /\ Ev.e = "minmax" /\ UNCHANGED <<a, b>>
  /\ Ev.mn = P!Least({Ev.v[i] : i \in DOMAIN Ev.v}) /\ Ev.mx = P!Greatest({Ev.v[i] : i \in DOMAIN Ev.v})

TNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid
         /\ RNew \/ RSet \/ RAssign \/ RAsk \/ QNew \/ QSet \/ QAsk \/ SAsk \/ SRect \/ PAsk \/ PMinMax
TSpec == TInit /\ [][TNext]_tvars
Inv == TRUE
Accept1 == ~More => PrintT(<<"ACC", tid>>)
Diag == PrintT(<<"AT", l>>)
=============================================================================
