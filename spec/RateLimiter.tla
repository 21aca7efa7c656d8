---------------------------- MODULE RateLimiter ----------------------------
(* Abstract specification of rate_limiter (time in microseconds).            *)
(* The k-th sync of a limiter of rate r created at t0 returns at             *)
(* max(call, t0 + k/r); 1 us of tolerance for the rounding of 1/r.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES now, lim, pend
pvars == <<now, lim, pend>>
\* lim: limiter -> [t0, r, k]; pend: thread -> [id, at]

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PInit == now = 0 /\ lim = Empty /\ pend = Empty

New(id, r) == /\ id \notin DOMAIN lim /\ lim' = lim @@ (id :> [t0 |-> now, r |-> r, k |-> 0])
              /\ UNCHANGED <<now, pend>>
Call(t, id) == /\ t \notin DOMAIN pend /\ id \in DOMAIN lim
               /\ lim' = [lim EXCEPT ![id].k = @ + 1]
               /\ pend' = pend @@ (t :> [id |-> id, at |-> now])
               /\ UNCHANGED now
\* floor of k/r in microseconds, by long division (32-bit integers)
Us(k, r) == LET a == (k % r) * 1000
                b == (a % r) * 1000
            IN (k \div r) * 1000000 + (a \div r) * 1000 + b \div r
DueBy(c, x) == c.t0 + Us(c.k, c.r) <= x
Ret(t) == /\ t \in DOMAIN pend
          /\ DueBy(lim[pend[t].id], now + 1)            \* not early
          /\ pend' = Drop(pend, t) /\ UNCHANGED <<now, lim>>
Tick(to, q) == /\ to >= now
               \* everything blocked: no pending sync may be left behind at `now`, nor slept past its instant
               /\ q => \A t \in DOMAIN pend : (to - now > 1 => ~DueBy(lim[pend[t].id], now - 1)) /\ ~DueBy(lim[pend[t].id], to - 2)
               /\ now' = to /\ UNCHANGED <<lim, pend>>
\* n calls in a row without any work in between, none of them late: the last one returns now
Burst(id, n) == /\ LET c == [lim[id] EXCEPT !.k = @ + n]
                   IN /\ DueBy(c, now + 2) /\ ~DueBy(c, now - 3)
                      /\ lim' = [lim EXCEPT ![id] = c]
                /\ UNCHANGED <<now, pend>>
Jump(to) == to >= now /\ now' = to /\ UNCHANGED <<lim, pend>>
TypeInv == \A id \in DOMAIN lim : lim[id].t0 <= now
=============================================================================
