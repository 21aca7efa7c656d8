----------------------------- MODULE LimiterImpl -----------------------------
(* Implementation-level model of rate_limiter: a point in time that is moved  *)
(* on by the period with every sync, and a sleep until that point.  Sleepers  *)
(* may wake up late and callers may be late; one thread per limiter.          *)
(* Checked: refinement of RateLimiter (C16), the rate itself, and that a late *)
(* caller catches up.  Bug # "none": a faulty variant.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Rates, MaxTime, Bug
Threads == DOMAIN Rates \* thread t uses limiter t, whose rate is Rates[t]
DefRates == <<250000, 500000>>
OddRates == <<300000, 700000>> \* periods of 3.33 and 1.43 us

VARIABLES now, made, t0, tp, k, pc, at
vars == <<now, made, t0, tp, k, pc, at>>
\* tp: units of 1/rate since t0 (exact); at: instant of the call; k: returns so far
R(t) == Rates[t]
Init == /\ now = 0 /\ made = {} /\ t0 = [t \in Threads |-> 0] /\ tp = [t \in Threads |-> 0] /\ k = [t \in Threads |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0]
Make(t) == t \notin made /\ made' = made \cup {t} /\ t0' = [t0 EXCEPT ![t] = now] /\ UNCHANGED <<now, tp, k, pc, at>>
\* the instant tp, in units of a millionth of the rate: tp * 10^6, compared with microseconds * rate (in steps of 10^4)
Reached(t, x) == tp[t] * 100 <= (x - t0[t]) * (R(t) \div 10000)
Call(t) == /\ t \in made /\ pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "sleep"] /\ at' = [at EXCEPT ![t] = now]
           /\ tp' = [tp EXCEPT ![t] = IF (Bug = "reset_if_late" /\ Reached(t, now - 4)) THEN ((now - t0[t]) * (R(t) \div 10000)) \div 100 + 1
                                      ELSE IF Bug = "skip" /\ k[t] = 2 THEN @ + 2 ELSE @ + 1]
           /\ UNCHANGED <<now, made, t0, k>>
Wake(t) == /\ pc[t] = "sleep" /\ Reached(t, IF Bug = "early" THEN now + 3 ELSE now)
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ k' = [k EXCEPT ![t] = @ + 1] /\ UNCHANGED <<now, made, t0, tp, at>>
Blocked == \A t \in Threads : pc[t] = "sleep" => ~Reached(t, now)
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<made, t0, tp, k, pc, at>>
Next == Tick \/ \E t \in Threads : Make(t) \/ Call(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars

absLim == [t \in made |-> [t0 |-> t0[t], r |-> R(t), k |-> k[t] + (IF pc[t] = "sleep" THEN 1 ELSE 0)]]
absPend == [t \in {u \in Threads : pc[u] = "sleep"} |-> [id |-> t, at |-> at[t]]]
A == INSTANCE RateLimiter WITH lim <- absLim, pend <- absPend
AbsNext == \/ A!Tick(now', Blocked)
           \/ \E t \in Threads : A!New(t, R(t)) \/ A!Call(t, t) \/ A!Ret(t)
Refines == A!PInit /\ [][AbsNext]_(A!pvars)
\* never more returns than the rate allows since the construction
Inv == A!TypeInv /\ \A t \in made : k[t] * 100 <= (now - t0[t]) * (R(t) \div 10000)
\* nobody sleeps although the next point of the grid has passed and everybody else sleeps too
QuietOk == Blocked => \A t \in Threads : pc[t] = "sleep" => (k[t] + 1) * 100 > (now - t0[t]) * (R(t) \div 10000)
=============================================================================
