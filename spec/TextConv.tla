------------------------------ MODULE TextConv ------------------------------
(* Conversion of texts to values, as the command line parser defines it.     *)
(* A text is a sequence of character codes.  Every operator returns          *)
(* [ok |-> the text converts, v |-> the value].                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bad == [ok |-> FALSE, v |-> 0]
Good(x) == [ok |-> TRUE, v |-> x]
IsSpace(c) == c = 32 \/ c \in 9..13
IsDigit(c) == c \in 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Rest(s, i) == SubSeq(s, i, Len(s))

\* first position >= i whose character is not a blank / not a digit
RECURSIVE SkipSpace(_, _), SkipDigits(_, _), Count0(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipSpace(s, i + 1) ELSE i
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SkipDigits(s, i + 1) ELSE i
Count0(s, i) == IF i <= Len(s) /\ s[i] = 48 THEN Count0(s, i + 1) ELSE i

\* the number at the beginning of a text: blanks, sign, digits; [from, to) are the digits
Number(s) ==
  LET a == SkipSpace(s, 1)
      signed == At(s, a) \in {43, 45}
      b == IF signed THEN a + 1 ELSE a
  IN [neg |-> At(s, a) = 45, from |-> b, to |-> SkipDigits(s, b)]

\* value of the digits, accumulated downwards so that the most negative number is reached
RECURSIVE Down(_, _, _, _)
Down(s, i, to, acc) ==
  IF i = to THEN Good(acc)
  ELSE LET d == s[i] - 48
           limit == IF d = 0 THEN 214748364 ELSE (2147483647 - (d - 1)) \div 10
       IN IF -acc > limit THEN Bad ELSE Down(s, i + 1, to, acc * 10 - d)

\* int: a number may be followed by anything
ConvInt(s) ==
  LET n == Number(s) IN
  IF n.from = n.to THEN Bad
  ELSE LET r == Down(s, n.from, n.to, 0) IN
       IF ~r.ok THEN Bad
       ELSE IF n.neg THEN r
       ELSE IF r.v < -2147483647 THEN Bad ELSE Good(-r.v)

\* long long, read from a stream: the number is all there is; the value is its canonical text
Max64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Min64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLeq(a, b, i + 1))
NotAbove(d, m) == Len(d) < Len(m) \/ (Len(d) = Len(m) /\ LexLeq(d, m, 1))
\* a number within bounds (given as digits; min = <<>>: no negative numbers)
ConvWithin(s, min, max) ==
  LET n == Number(s) IN
  IF n.from = n.to \/ n.to # Len(s) + 1 THEN Bad
  ELSE LET d == SubSeq(s, Count0(s, n.from), n.to - 1) IN
       IF d = <<>> THEN Good(<<48>>)
       ELSE IF ~NotAbove(d, IF n.neg THEN min ELSE max) THEN Bad
       ELSE Good(IF n.neg THEN <<45>> \o d ELSE d)
ConvLong(s) == ConvWithin(s, Min64, Max64)
\* 32 bits without sign, 16 bits with one
ConvU32(s) == IF Number(s).neg THEN Bad ELSE ConvWithin(s, <<>>, <<52,50,57,52,57,54,55,50,57,53>>)
ConvI16(s) == ConvWithin(s, <<51,50,55,54,56>>, <<51,50,55,54,55>>)

\* bool, read from a stream: a number that is 0 or 1
ConvBool(s) ==
  LET n == Number(s) IN
  IF n.from = n.to \/ n.to # Len(s) + 1 THEN Bad
  ELSE LET d == SubSeq(s, Count0(s, n.from), n.to - 1) IN
       IF d = <<>> THEN Good(0) ELSE IF d = <<49>> /\ ~n.neg THEN Good(1) ELSE Bad

\* one character, read from a stream: blanks are skipped, nothing may follow
ConvChar(s) == LET a == SkipSpace(s, 1) IN IF a = Len(s) THEN Good(s[a]) ELSE Bad

\* decimal numbers; the value is given in units of 1/10000 (the texts used are exact in this unit)
Inf == 2000000001
NegInf == 2000000002
NaN == 2000000003
Huge == 2000000009      \* at least 10^9 units
NegHuge == 2000000008
HexDigit(c) == IsDigit(c) \/ Lower(c) \in 97..102
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87
RECURSIVE Hex(_, _, _)
Hex(s, i, acc) == IF i <= Len(s) /\ HexDigit(s[i]) /\ acc < 6000 THEN Hex(s, i + 1, acc * 16 + HexValue(s[i])) ELSE acc
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
LowerText(s, i, k) == [j \in 1..k |-> Lower(At(s, i + j - 1))]
ConvReal(s, maxexp) ==
  LET a == SkipSpace(s, 1)
      neg == At(s, a) = 45
      b == IF At(s, a) \in {43, 45} THEN a + 1 ELSE a
      i == SkipDigits(s, b)
      f == IF At(s, i) = 46 THEN SkipDigits(s, i + 1) ELSE i
      fr == IF At(s, i) = 46 THEN f - i - 1 ELSE 0
      ds == SubSeq(s, b, i - 1) \o (IF fr > 0 THEN SubSeq(s, i + 1, f - 1) ELSE <<>>)
      x == IF Lower(At(s, f)) = 101 THEN f + 1 ELSE 0
      xneg == x > 0 /\ At(s, x) = 45
      xb == IF x > 0 /\ At(s, x) \in {43, 45} THEN x + 1 ELSE x
      xe == IF x > 0 THEN SkipDigits(s, xb) ELSE 0
      ex == IF x > 0 /\ xe > xb THEN LET r == Down(s, xb, xe, 0) IN IF r.ok THEN r.v ELSE -100000 ELSE 0
      e10 == (IF xneg THEN ex ELSE -ex)
      sig == SubSeq(ds, Count0(ds, 1), Len(ds))
      p == e10 - fr + 4
      whole == Len(sig) + p   \* number of digits of the value in units
  IN IF LowerText(s, b, 3) = <<105, 110, 102>> THEN Good(IF neg THEN NegInf ELSE Inf)
     ELSE IF LowerText(s, b, 3) = <<110, 97, 110>> THEN Good(NaN)
     ELSE IF ds = <<>> THEN Bad
     ELSE IF At(s, b) = 48 /\ Lower(At(s, b + 1)) = 120 /\ HexDigit(At(s, b + 2))     \* small hexadecimal integers only
     THEN Good((IF neg THEN -1 ELSE 1) * 10000 * Hex(s, b + 2, 0))
     ELSE IF sig = <<>> THEN Good(0)
     ELSE IF Len(sig) - fr + e10 > maxexp + 1 \/ Len(sig) - fr + e10 < -(maxexp + 10) THEN Bad
     ELSE IF whole >= 10 THEN Good(IF neg THEN NegHuge ELSE Huge)
     ELSE LET v == IF p >= 0 THEN Down(sig, 1, Len(sig) + 1, 0).v * Pow10(p) ELSE IF whole <= 0 THEN 0 ELSE Down(sig, 1, whole + 1, 0).v IN
          Good(IF neg THEN v ELSE -v)

\* pieces of a text between commas (the text's last piece only if it is not empty)
RECURSIVE Split(_, _)
Split(s, acc) ==
  LET c == {i \in 1..Len(s) : s[i] = 44} IN
  IF s = <<>> THEN acc
  ELSE IF c = {} THEN Append(acc, s)
  ELSE LET i == CHOOSE i \in c : \A j \in c : i <= j IN Split(Rest(s, i + 1), Append(acc, SubSeq(s, 1, i - 1)))

Conv1(t, s) == CASE t = "int" -> ConvInt(s)
               [] t = "float" -> ConvReal(s, 38)
               [] t = "double" -> ConvReal(s, 308)
               [] t \in {"string", "path", "cstr"} -> Good(s)
               [] t = "ll" -> ConvLong(s)
               [] t = "u32" -> ConvU32(s)
               [] t = "i16" -> ConvI16(s)
               [] t = "bool" -> ConvBool(s)
               [] t = "char" -> ConvChar(s)
ConvList(t, s) ==
  LET p == Split(s, <<>>)
      c == [i \in DOMAIN p |-> Conv1(t, p[i])]
  IN IF \A i \in DOMAIN c : c[i].ok THEN Good([i \in DOMAIN c |-> c[i].v]) ELSE Bad
Convert(t, s) == CASE t = "vint" -> ConvList("int", s)
                 [] t = "vstring" -> ConvList("string", s)
                 [] t = "vu32" -> ConvList("u32", s)
                 [] t = "vdouble" -> ConvList("double", s)
                 [] OTHER -> Conv1(t, s)
=============================================================================
