------------------------------- MODULE Limbs -------------------------------
(* Exact integers beyond TLC's 32 bits: sequences of limbs in base 1000, least significant first, of which all but the last
   are in 0..999 after normalisation (the last one carries the sign). *)
EXTENDS Integers, Sequences

BASE == 1000
LOCAL At(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
LOCAL Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE Carry(_, _, _)
Carry(a, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE IF c = -1 \/ (c > -BASE /\ c < BASE) THEN <<c>> ELSE <<c % BASE>> \o Carry(a, i + 1, c \div BASE)
  ELSE <<(a[i] + c) % BASE>> \o Carry(a, i + 1, (a[i] + c) \div BASE)
Norm(a) == Carry(a, 1, 0)
Big(x) == Norm(<<x>>)
\* unnormalised operations; coefficients stay below 2^31 for operands of up to a dozen normalised limbs
Add(a, b) == Norm([i \in 1..Longest(a, b) |-> At(a, i) + At(b, i)])
Neg(a) == Norm([i \in DOMAIN a |-> -a[i]])
Sub(a, b) == Norm([i \in 1..Longest(a, b) |-> At(a, i) - At(b, i)])
RECURSIVE SumUp(_, _, _, _, _)
SumUp(a, b, k, i, s) == IF i > k THEN s ELSE SumUp(a, b, k, i + 1, s + At(a, i) * At(b, k + 1 - i))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm([k \in 1..(Len(a) + Len(b) - 1) |-> SumUp(a, b, k, 1, 0)])
\* the sign of a normalised number
RECURSIVE AllZero(_, _)
AllZero(a, i) == i > Len(a) \/ (a[i] = 0 /\ AllZero(a, i + 1))
Sign(a) == IF a = <<>> \/ AllZero(a, 1) THEN 0 ELSE IF a[Len(a)] < 0 THEN -1 ELSE 1
Leq(a, b) == Sign(Sub(a, b)) <= 0
Abs(a) == IF Sign(a) < 0 THEN Neg(a) ELSE a
RECURSIVE ValueAt(_, _)
ValueAt(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + BASE * ValueAt(a, i + 1)
Value(a) == ValueAt(a, 1)      \* only for numbers within 32 bits
=============================================================================
