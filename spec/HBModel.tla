------------------------------- MODULE HBModel -------------------------------
(* The vector clocks of HappensBefore.tla against the definition of the C++   *)
(* memory model: all executions of a few threads over one location and one    *)
(* synchronisation object are enumerated, and at every point every possible   *)
(* next access must be enabled exactly if it does not race with an earlier    *)
(* one, where "happens before" is the transitive closure of program order,    *)
(* synchronises-with, thread creation and joining.                            *)
EXTENDS HappensBefore

CONSTANTS NT, MaxLen, Bug

VARIABLE hist \* sequence of [k |-> kind, t |-> thread, u |-> other thread]
T == 0..(NT - 1)
Kinds == {"rd", "wr", "ard", "awr", "acq", "rel", "relj", "clr"}

Init == HInit(T, {0}, {0}) /\ hist = <<>>

Do(k, t) ==
  CASE k = "rd" -> Read(t, 0)
    [] k = "wr" -> Write(t, 0)
    [] k = "ard" -> AtomicRead(t, 0)
    [] k = "awr" -> AtomicWrite(t, 0)
    [] k = "acq" -> Acquire(t, 0)
    [] k = "rel" -> IF Bug = "rel_keeps" THEN ReleaseJoin(t, 0) ELSE Release(t, 0)
    [] k = "relj" -> IF Bug = "rmw_replaces" THEN Release(t, 0) ELSE ReleaseJoin(t, 0)
    [] k = "clr" -> IF Bug = "relaxed_keeps" THEN UNCHANGED hvars ELSE Clear(t, 0)

Range == {hist[i] : i \in DOMAIN hist}
Started(u) == \E e \in Range : e.t = u \/ (e.k = "fork" /\ e.u = u)
Ended(u) == \E e \in Range : e.k = "join" /\ e.u = u
\* a thread is created before it does anything, and does nothing after it has been joined
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E t \in T, k \in Kinds : ~Ended(t) /\ Do(k, t) /\ hist' = Append(hist, [k |-> k, t |-> t, u |-> t])
     \/ \E t, u \in T : t # u /\ ~Ended(t) /\ ~Started(u) /\ Fork(t, u) /\ hist' = Append(hist, [k |-> "fork", t |-> t, u |-> u])
     \/ \E t, u \in T : t # u /\ ~Ended(t) /\ ~Ended(u) /\ JoinThread(t, u) /\ hist' = Append(hist, [k |-> "join", t |-> t, u |-> u])
Spec == Init /\ [][Next]_<<hvars, hist>>

\* ---------------------------------------------------------------- the definition
N == Len(hist)
Sw(i, j) == \* the acquire j reads from the release sequence headed by i
  /\ i < j
  /\ hist[i].k \in {"rel", "relj"} /\ hist[j].k = "acq"
  /\ ~\E m \in (i + 1)..(j - 1) : hist[m].k \in {"rel", "clr"}
\* creation of u orders before everything u does from then on; joining u orders everything u has done
Edge(i, j) ==
  /\ i < j
  /\ \/ hist[i].t = hist[j].t
     \/ Sw(i, j)
     \/ hist[i].k = "fork" /\ hist[j].t = hist[i].u
     \/ hist[j].k = "join" /\ hist[i].t = hist[j].u
     \* what u was told by a third thread forking it belongs to what is joined
     \/ hist[j].k = "join" /\ hist[i].k = "fork" /\ hist[i].u = hist[j].u

\* the events that happen before the next event of thread t
RECURSIVE Closure(_)
Closure(S) ==
  LET S2 == S \cup {i \in 1..N : \E j \in S : Edge(i, j)} IN IF S2 = S THEN S ELSE Closure(S2)
Before(t) == Closure({i \in 1..N : hist[i].t = t \/ (hist[i].k = "fork" /\ hist[i].u = t)})

IsWrite(k) == k \in {"wr", "awr"}
IsAtomic(k) == k \in {"ard", "awr"}
Access == {"rd", "wr", "ard", "awr"}
Conflict(k, m) == (IsWrite(k) \/ IsWrite(m)) /\ ~(IsAtomic(k) /\ IsAtomic(m))
Races(k, t) == \E i \in 1..N : hist[i].k \in Access /\ hist[i].t # t /\ Conflict(k, hist[i].k) /\ i \notin Before(t)

CanDo(k, t) ==
  CASE k = "rd" -> Ordered(wr[0], t) /\ Ordered(awr[0], t)
    [] k = "wr" -> Ordered(wr[0], t) /\ Ordered(awr[0], t) /\ Ordered(rd[0], t) /\ Ordered(ard[0], t)
    [] k = "ard" -> Ordered(wr[0], t)
    [] k = "awr" -> Ordered(wr[0], t) /\ Ordered(rd[0], t)

Exact == \A t \in T, k \in Access : ~Ended(t) => (CanDo(k, t) <=> ~Races(k, t))
=============================================================================
