--------------------------- MODULE HappensBefore ---------------------------
(* The happens-before order of the C++ memory model, kept with vector        *)
(* clocks, and what it means for an execution to be free of data races:      *)
(* two accesses of one memory location by different threads, at least one    *)
(* of them a write and at least one of them not atomic, are ordered.         *)
(*                                                                           *)
(*   clk[t]   the clock of thread t: clk[t][u] is the last epoch of u that   *)
(*            happens before what t does next                                *)
(*   rel[o]   what a thread acquires that synchronises with object o (mutex, *)
(*            atomic variable, once flag, guard of a static variable)        *)
(*   wr, rd   for each location the epochs of the last plain write and read  *)
(*   awr, ard of each thread, and of the last atomic write and read          *)
(*                                                                           *)
(* An access is enabled only if it does not race with an earlier one, so an  *)
(* execution with a race has no explanation.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES clk, rel, wr, rd, awr, ard
hvars == <<clk, rel, wr, rd, awr, ard>>

Max(a, b) == IF a < b THEN b ELSE a
Zero(T) == [u \in T |-> 0]
Join(c, d) == [u \in DOMAIN c |-> Max(c[u], d[u])]

HInit(T, O, L) ==
  /\ clk = [t \in T |-> [u \in T |-> IF u = t THEN 1 ELSE 0]]
  /\ rel = [o \in O |-> Zero(T)]
  /\ wr = [x \in L |-> Zero(T)]
  /\ rd = [x \in L |-> Zero(T)]
  /\ awr = [x \in L |-> Zero(T)]
  /\ ard = [x \in L |-> Zero(T)]

\* every access recorded in the vector v happens before what thread t does next
Ordered(v, t) == \A u \in DOMAIN v : v[u] <= clk[t][u]

Mark(f, x, t) == [f EXCEPT ![x][t] = clk[t][t]]

Read(t, x) ==
  /\ Ordered(wr[x], t) /\ Ordered(awr[x], t)
  /\ rd' = Mark(rd, x, t)
  /\ UNCHANGED <<clk, rel, wr, awr, ard>>

Write(t, x) ==
  /\ Ordered(wr[x], t) /\ Ordered(awr[x], t) /\ Ordered(rd[x], t) /\ Ordered(ard[x], t)
  /\ wr' = Mark(wr, x, t)
  /\ UNCHANGED <<clk, rel, rd, awr, ard>>

AtomicRead(t, x) ==
  /\ Ordered(wr[x], t)
  /\ ard' = Mark(ard, x, t)
  /\ UNCHANGED <<clk, rel, wr, rd, awr>>

AtomicWrite(t, x) ==
  /\ Ordered(wr[x], t) /\ Ordered(rd[x], t)
  /\ awr' = Mark(awr, x, t)
  /\ UNCHANGED <<clk, rel, wr, rd, ard>>

\* lock, acquiring load, acquiring read-modify-write, end of a call of call_once, ...
Acquire(t, o) ==
  /\ clk' = [clk EXCEPT ![t] = Join(@, rel[o])]
  /\ UNCHANGED <<rel, wr, rd, awr, ard>>

NextEpoch(c, t) == [c EXCEPT ![t][t] = @ + 1]

\* unlock, releasing store: whoever acquires later is ordered after this thread only
Release(t, o) ==
  /\ rel' = [rel EXCEPT ![o] = clk[t]]
  /\ clk' = NextEpoch(clk, t)
  /\ UNCHANGED <<wr, rd, awr, ard>>

\* releasing read-modify-write, unlock by a reader: continues the release sequence
ReleaseJoin(t, o) ==
  /\ rel' = [rel EXCEPT ![o] = Join(@, clk[t])]
  /\ clk' = NextEpoch(clk, t)
  /\ UNCHANGED <<wr, rd, awr, ard>>

\* relaxed store: ends the release sequence
Clear(t, o) ==
  /\ rel' = [rel EXCEPT ![o] = Zero(DOMAIN @)]
  /\ UNCHANGED <<clk, wr, rd, awr, ard>>

Fork(t, u) ==
  /\ clk' = NextEpoch([clk EXCEPT ![u] = Join(@, clk[t])], t)
  /\ UNCHANGED <<rel, wr, rd, awr, ard>>

JoinThread(t, u) ==
  /\ clk' = [clk EXCEPT ![t] = Join(@, clk[u])]
  /\ UNCHANGED <<rel, wr, rd, awr, ard>>
=============================================================================
