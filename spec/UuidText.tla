------------------------------ MODULE UuidText ------------------------------
(* Texts of uuids as sequences of byte codes. *)
EXTENDS Integers, Sequences, FiniteSets

LBRACE == 123
RBRACE == 125
DASH == 45
IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
Digit(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d
\* what remains of a text without its enclosing braces; "{" alone is no pair of braces
Braced(t) == Len(t) >= 2 /\ t[1] = LBRACE /\ t[Len(t)] = RBRACE
Body(t) == IF Braced(t) THEN SubSeq(t, 2, Len(t) - 1) ELSE t
NotDash(c) == c # DASH
Digits(t) == SelectSeq(Body(t), NotDash)
Valid(t) == LET d == Digits(t) IN Len(d) = 32 /\ \A i \in DOMAIN d : IsHex(d[i])
\* the 16 bytes a valid text denotes
Bytes(t) == LET d == Digits(t) IN [i \in 1..16 |-> 16 * Digit(d[2 * i - 1]) + Digit(d[2 * i])]
\* canonical form of 16 bytes
Hex2(b) == <<Char(b \div 16), Char(b % 16)>>
RECURSIVE Hexes(_, _, _)
Hexes(b, i, j) == IF i > j THEN <<>> ELSE Hex2(b[i]) \o Hexes(b, i + 1, j)
Canonical(b) == Hexes(b, 1, 4) \o <<DASH>> \o Hexes(b, 5, 6) \o <<DASH>> \o Hexes(b, 7, 8) \o <<DASH>> \o Hexes(b, 9, 10) \o <<DASH>> \o Hexes(b, 11, 16)
\* order of uuids
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i > 16 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)
=============================================================================
