------------------------------ MODULE NanosModel ------------------------------
(* Model checking of the arithmetic in parts: the laws of ordered groups, multiplication as repeated addition, quotients and totals as
   the only numbers of their kind, rounding; where the numbers are small enough, agreement with the integers. *)
EXTENDS Nanos, FiniteSets
CONSTANT Wide
Days == IF Wide THEN {-106752, -3, -1, 0, 1, 7, 106751} ELSE {-3, -1, 0, 1}
Of == {q \in Days \X (IF Wide THEN {0, 1, 59, 3599, 3600, 86399} ELSE {0, 61, 86399}) \X {0, 1, 1999, 999999} \X {0, 1, 999} : TRUE}
VARIABLES a, b, k
vars == <<a, b, k>>
Init == a \in Of /\ b = ZeroQ /\ k = 0
Next == k = 0 /\ b' \in Of /\ k' \in {-7, -3, -1, 1, 2, 1000} /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Group == /\ IsQ(AddQ(a, b)) /\ IsQ(NegQ(a)) /\ AddQ(a, b) = AddQ(b, a) /\ AddQ(a, ZeroQ) = a /\ AddQ(a, NegQ(a)) = ZeroQ
         /\ SubQ(AddQ(a, b), b) = a /\ NegQ(NegQ(a)) = a /\ NegQ(AddQ(a, b)) = AddQ(NegQ(a), NegQ(b))
         /\ AddQ(AddQ(a, b), AbsQ(a)) = AddQ(a, AddQ(b, AbsQ(a)))
Ordered == /\ Cardinality({x \in {1, 2, 3} : <<LessQ(a, b), a = b, LessQ(b, a)>>[x]}) = 1
           /\ LessQ(a, b) <=> NegativeQ(SubQ(a, b))
           /\ LessQ(a, b) <=> LessQ(AddQ(a, b), AddQ(b, b))
           /\ ~NegativeQ(AbsQ(a)) /\ AbsQ(NegQ(a)) = AbsQ(a)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN ZeroQ ELSE IF n < 0 THEN NegQ(Times(x, -n)) ELSE LET h == Times(x, n \div 2) IN IF n % 2 = 0 THEN AddQ(h, h) ELSE AddQ(x, AddQ(h, h))
Multiples == k # 0 /\ a[1] \in -10..10 => MulQ(a, k) = Times(a, k)
Nano == <<0, 0, 0, 1>>
\* of the quotients only the exact one, or the one truncated towards zero, and neither of its neighbours
Quotients == k # 0 /\ a[1] \in -10..10 /\ b[1] \in -10..10 =>
  /\ IsQuotient(a, MulQ(a, k), k) /\ ~IsQuotient(AddQ(a, Nano), MulQ(a, k), k) /\ ~IsQuotient(SubQ(a, Nano), MulQ(a, k), k)
  /\ IsQuotient(b, a, k) => /\ ~IsQuotient(AddQ(b, Nano), a, k) /\ ~IsQuotient(SubQ(b, Nano), a, k)
                            /\ LeqQ(AbsQ(MulQ(b, k)), AbsQ(a))
Totals == k > 0 /\ a[1] \in 0..10 /\ a # ZeroQ => IsTotal(k, MulQ(a, k), a) /\ ~IsTotal(k + 1, MulQ(a, k), a) /\ ~IsTotal(k - 1, MulQ(a, k), a)
                                                    /\ (LessQ(b, a) /\ ~NegativeQ(b) => IsTotal(k, AddQ(MulQ(a, k), b), a) /\ IsTotal(-k, NegQ(AddQ(MulQ(a, k), b)), a))
Rounding == \A p \in 1..7 :
  /\ LeqQ(FloorQ(a, p), a) /\ FloorQ(FloorQ(a, p), p) = FloorQ(a, p)
  /\ LeqQ(AbsQ(TruncQ(a, p)), AbsQ(a)) /\ TruncQ(NegQ(a), p) = NegQ(TruncQ(a, p))
  /\ LessQ(a, b) => LeqQ(FloorQ(a, p), FloorQ(b, p)) /\ LeqQ(TruncQ(a, p), TruncQ(b, p))
  /\ LET unit == <<<<1, 0, 0, 0>>, <<0, 3600, 0, 0>>, <<0, 60, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1000, 0>>, <<0, 0, 1, 0>>, Nano>>[p] IN
     LessQ(SubQ(a, FloorQ(a, p)), unit) /\ LessQ(AbsQ(SubQ(a, TruncQ(a, p))), unit)
Day == /\ LET m == Mod24(a) IN LessQ(AbsQ(m), <<1, 0, 0, 0>>) /\ LET r == SubQ(a, m) IN r[2] = 0 /\ r[3] = 0 /\ r[4] = 0
       /\ (NegativeQ(Mod24(a)) => NegativeQ(a))
\* the integers, for durations of up to a second
Whole(x) == x[2] * 1000000000 + x[3] * 1000 + x[4]
Small(x) == x[1] = 0 /\ x[2] <= 1
Integers == Small(a) /\ Small(b) => /\ (LessQ(a, b) <=> Whole(a) < Whole(b))
                                     /\ (a[2] = 0 /\ b[2] = 0 => Whole(AddQ(a, b)) = Whole(a) + Whole(b))
                                     /\ (Whole(b) <= Whole(a) => Whole(SubQ(a, b)) = Whole(a) - Whole(b))
                                     /\ (k > 0 => \A n \in {0, 1} : IsQuotient(Norm(0, 0, 0, Whole(a) \div k + n), a, k) <=> n = 0)
=============================================================================
