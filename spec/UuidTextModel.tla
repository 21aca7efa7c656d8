---------------------------- MODULE UuidTextModel ----------------------------
(* Model checking of the texts of uuids: the canonical text of any 16 bytes denotes these bytes, in either case, with braces or without
   dashes; leaving out, adding or replacing a character is valid only where it may be; the order is total and agrees with the texts. *)
EXTENDS UuidText
CONSTANTS Bytes1, Bytes2
AllBytes == 0..255
FewBytes == {16 * x : x \in 0..15} \cup {x + 240 : x \in 0..15} \cup {0, 1, 159, 160, 175}
Base == <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152, 118, 84, 50, 16>>
VARIABLES b, c, i, j
vars == <<b, c, i, j>>
Init == i \in 1..16 /\ b \in {[Base EXCEPT ![i] = v] : v \in Bytes1} /\ c = b /\ j = 0
Next == j = 0 /\ j' \in 1..16 /\ c' \in {[b EXCEPT ![j'] = v] : v \in Bytes2} /\ UNCHANGED <<b, i>>
Spec == Init /\ [][Next]_vars
Upper(t) == [x \in DOMAIN t |-> IF t[x] >= 97 /\ t[x] <= 102 THEN t[x] - 32 ELSE t[x]]
Enclosed(t) == <<LBRACE>> \o t \o <<RBRACE>>
T == Canonical(b)
Denotes(t) == Valid(t) /\ Bytes(t) = b
RoundTrip == /\ Len(T) = 36 /\ \A x \in {T, Upper(T), Enclosed(T), SelectSeq(T, NotDash), Enclosed(Upper(SelectSeq(T, NotDash)))} : Denotes(x)
             /\ Canonical(Bytes(T)) = T
Without(t, x) == SubSeq(t, 1, x - 1) \o SubSeq(t, x + 1, Len(t))
With(t, x, ch) == SubSeq(t, 1, x - 1) \o <<ch>> \o SubSeq(t, x, Len(t))
Edits == j = 0 /\ b[i] \in {0, 175, 255} =>
  /\ \A x \in 1..36 : IF T[x] = DASH THEN Denotes(Without(T, x)) ELSE ~Valid(Without(T, x))
  /\ \A x \in 1..37 : Denotes(With(T, x, DASH)) /\ \A ch \in {48, 102, 103, LBRACE, RBRACE, 32, 0} : ~Valid(With(T, x, ch))
  /\ \A x \in 1..36, ch \in {47, 58, 64, 71, 96, 103, LBRACE, RBRACE, 0, 255} : ~Valid([T EXCEPT ![x] = ch])
  /\ ~Valid(<<LBRACE>> \o T) /\ ~Valid(Append(T, RBRACE)) /\ ~Valid(Enclosed(Enclosed(T))) /\ ~Valid(<<LBRACE>>) /\ ~Valid(<<>>)
Digit0(t, u, x) == t[x] # u[x] /\ \A y \in 1..(x - 1) : t[y] = u[y]
Order == j # 0 => LET U == Canonical(c) IN
  /\ (b = c) <=> (T = U)
  /\ ~(Less(b, c) /\ Less(c, b)) /\ (b # c => Less(b, c) \/ Less(c, b))
  /\ Less(b, c) <=> \E x \in 1..36 : Digit0(T, U, x) /\ T[x] < U[x]
=============================================================================
