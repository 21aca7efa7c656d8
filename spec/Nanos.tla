-------------------------------- MODULE Nanos --------------------------------
(* Durations and instants in nanoseconds as <<days, seconds of the day, microseconds, nanoseconds>>, each but the first within its
   range (so the first carries the sign, rounding towards the past). *)
EXTENDS Integers, Sequences

DAY == 86400
Norm(d, s, u, n) ==
  LET u1 == u + (n \div 1000)
      s1 == s + (u1 \div 1000000)
  IN <<d + (s1 \div DAY), s1 % DAY, u1 % 1000000, n % 1000>>
ZeroQ == <<0, 0, 0, 0>>
IsQ(q) == q[2] \in 0..(DAY - 1) /\ q[3] \in 0..999999 /\ q[4] \in 0..999
AddQ(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4])
NegQ(a) == Norm(-a[1], -a[2], -a[3], -a[4])
SubQ(a, b) == AddQ(a, NegQ(b))
\* k up to a thousand or so
MulQ(a, k) == Norm(a[1] * k, a[2] * k, a[3] * k, a[4] * k)
LessQ(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] < b[4])))))
LeqQ(a, b) == a = b \/ LessQ(a, b)
NegativeQ(a) == a[1] < 0
AbsQ(a) == IF NegativeQ(a) THEN NegQ(a) ELSE a
\* a sign for whatever was computed on the absolute value
SignedQ(a, x) == IF NegativeQ(a) THEN NegQ(x) ELSE x
SignedI(a, x) == IF NegativeQ(a) THEN -x ELSE x
\* precisions: 1 day, 2 hours, 3 minutes, 4 seconds, 5 milli-, 6 micro-, 7 nanoseconds
FloorQ(a, p) == CASE p = 1 -> <<a[1], 0, 0, 0>>
                  [] p = 2 -> <<a[1], a[2] - (a[2] % 3600), 0, 0>>
                  [] p = 3 -> <<a[1], a[2] - (a[2] % 60), 0, 0>>
                  [] p = 4 -> <<a[1], a[2], 0, 0>>
                  [] p = 5 -> <<a[1], a[2], a[3] - (a[3] % 1000), 0>>
                  [] p = 6 -> <<a[1], a[2], a[3], 0>>
                  [] OTHER -> a
TruncQ(a, p) == SignedQ(a, FloorQ(AbsQ(a), p))
\* reduced modulo 24 hours, keeping the sign
Mod24(a) == LET x == AbsQ(a) IN SignedQ(a, <<0, x[2], x[3], x[4]>>)
\* x is a divided by k and truncated towards zero
IsQuotient(x, a, k) ==
  LET r == SubQ(a, MulQ(x, k))
      ar == AbsQ(r)
      ak == IF k < 0 THEN -k ELSE k IN
  /\ LessQ(ar, Norm(0, 0, 0, ak))
  /\ r # ZeroQ => NegativeQ(r) = NegativeQ(a)
\* x whole units (a unit is a duration) fit in the absolute value of a and not one more
IsTotal(x, a, unit) == LET ax == IF x < 0 THEN -x ELSE x
                           r == SubQ(AbsQ(a), MulQ(unit, ax)) IN
  ~NegativeQ(r) /\ LessQ(r, unit) /\ (x # 0 => (x < 0) = NegativeQ(a))
RECURSIVE SumQ(_, _)
SumQ(s, i) == IF i > Len(s) THEN ZeroQ ELSE AddQ(s[i], SumQ(s, i + 1))
YEAR == <<365, 20952, 0, 0>>     \* 31556952 s
MONTH == <<30, 37746, 0, 0>>     \* 2629746 s
=============================================================================
