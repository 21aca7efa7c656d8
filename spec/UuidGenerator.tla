--------------------------- MODULE UuidGenerator ---------------------------
(* Abstract specification of uuid_generator::create: every call returns a    *)
(* version 4, variant 10 uuid that was never returned before.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES issued, pend
pvars == <<issued, pend>>
PInit == issued = {} /\ pend = {}
Call(t) == t \notin pend /\ pend' = pend \cup {t} /\ UNCHANGED issued
WellFormed(b) == /\ Len(b) = 16 /\ \A i \in 1..16 : b[i] \in 0..255
                 /\ b[7] \div 16 = 4 /\ b[9] \div 64 = 2
Ret(t, b) == /\ t \in pend /\ pend' = pend \ {t}
             /\ WellFormed(b) /\ b \notin issued
             /\ issued' = issued \cup {b}
(* many uuids at once: as many different ones as there were calls, none of   *)
(* them issued before                                                        *)
Fresh(n, bs) == LET new == {bs[i] : i \in DOMAIN bs} IN
                /\ Len(bs) = n /\ Cardinality(new) = n
                /\ \A b \in new : WellFormed(b)
                /\ new \cap issued = {}
Bulk(n, bs) == IF Fresh(n, bs)
               THEN issued' = issued \cup {bs[i] : i \in DOMAIN bs} /\ UNCHANGED pend
               ELSE FALSE
TypeInv == \A b \in issued : WellFormed(b)
=============================================================================
