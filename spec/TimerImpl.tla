------------------------------ MODULE TimerImpl ------------------------------
(* Implementation-level model of high_precision_timer: a worker thread that    *)
(* sleeps on a condition variable until the next instant and holds the mutex   *)
(* while it runs the callback; one controlling client that calls set_callback  *)
(* (1), start and stop, one reader of the counters.  Time is discrete and may  *)
(* pass at any moment.                                                         *)
(* Checked: refinement of HighPrecisionTimer (C13, C14).                       *)
(* Bug # "none" selects a faulty variant, or one that is right but different:  *)
(* "ok_single" counts missed instants one by one, "ok_move_first" counts the   *)
(* invocation last.                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, Intervals, MaxTime, Bug

VARIABLES now, flag, mtx,         \* holder of the mutex: 0 free, 1 client, 2 worker
          cb, t0, iv, due, inv, mis,
          wpc, waiting, skip,     \* worker; inside the condition variable; instants it found missed
          cpc, cop, cnt, rpc, rop, rcnt
vars == <<now, flag, mtx, cb, t0, iv, due, inv, mis, wpc, waiting, skip, cpc, cop, cnt, rpc, rop, rcnt>>
wk == <<wpc, waiting, skip>>
grid == <<t0, iv, due>>
cl == <<cpc, cop, cnt>>
rd == <<rpc, rop, rcnt>>
NoOp == [op |-> "", v |-> 0, r |-> 0]

Init == /\ now = 0 /\ flag = TRUE /\ mtx = 0 /\ cb = 0 /\ t0 = 0 /\ iv = 0 /\ due = 0 /\ inv = 0 /\ mis = 0
        /\ wpc = "none" /\ waiting = FALSE /\ skip = 0 /\ cpc = "idle" /\ cop = NoOp /\ cnt = 0
        /\ rpc = "idle" /\ rop = NoOp /\ rcnt = 0

Finish(r) == cpc' = "ret" /\ cop' = [cop EXCEPT !.r = r]
Call == /\ cpc = "idle" /\ cnt < MaxOps /\ cnt' = cnt + 1
        /\ \/ wpc = "none" /\ cpc' = "setcb" /\ cop' = [NoOp EXCEPT !.op = "setcb", !.v = 1]
           \/ cpc' = "start" /\ \E i \in Intervals : cop' = [NoOp EXCEPT !.op = "start", !.v = i]
           \/ cpc' = "stop" /\ cop' = [NoOp EXCEPT !.op = "stop"]
        /\ UNCHANGED <<now, flag, mtx, cb, inv, mis>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
C1 == /\ cpc = "setcb" /\ cb' = 1 /\ Finish(1)
      /\ UNCHANGED <<now, flag, mtx, inv, mis, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
C2 == /\ cpc = "start" /\ (IF cb = 0 \/ cop.v <= 0 THEN Finish(0) ELSE cpc' = "halt" /\ UNCHANGED cop)
      /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
\* stop(): flag off under the mutex, notify, join
C3 == /\ cpc \in {"halt", "stop"} /\ (mtx = 0 \/ Bug = "no_lock_stop") /\ flag' = FALSE /\ cpc' = "notify"
      /\ UNCHANGED <<now, mtx, cb, inv, mis, cop, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
C4 == /\ cpc = "notify" /\ cpc' = "join"
      /\ IF waiting /\ Bug # "no_notify" THEN waiting' = FALSE /\ wpc' = "relock" /\ UNCHANGED skip ELSE UNCHANGED wk
      /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cop, cnt>> /\ UNCHANGED grid /\ UNCHANGED rd
C5 == /\ cpc = "join" /\ (wpc \in {"none", "exit"} \/ Bug = "no_join")
      /\ IF cop.op = "stop" THEN Finish(1) ELSE cpc' = "resetInv" /\ UNCHANGED cop
      /\ wpc' = "none" /\ waiting' = FALSE /\ UNCHANGED skip
      /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cnt>> /\ UNCHANGED grid /\ UNCHANGED rd
C6 == /\ cpc = "resetInv" /\ cpc' = "resetMis" /\ inv' = 0
      /\ UNCHANGED <<now, flag, mtx, cb, mis, cop, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
C7 == /\ cpc = "resetMis" /\ cpc' = "plan" /\ (IF Bug = "keep_missed" THEN UNCHANGED mis ELSE mis' = 0)
      /\ UNCHANGED <<now, flag, mtx, cb, inv, cop, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
C8 == /\ cpc = "plan" /\ cpc' = "launch" /\ t0' = now /\ due' = now + cop.v /\ iv' = cop.v
      /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cop, cnt>> /\ UNCHANGED wk /\ UNCHANGED rd
C9 == /\ cpc = "launch" /\ cpc' = "watch" /\ wpc' = "on" /\ UNCHANGED <<waiting, skip>>
      /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cop, cnt>> /\ UNCHANGED grid /\ UNCHANGED rd
C10 == /\ cpc = "watch" /\ wpc # "on" /\ Finish(1)
       /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
CRet == /\ cpc = "ret" /\ cpc' = "idle" /\ cop' = NoOp
        /\ UNCHANGED <<now, flag, mtx, cb, inv, mis, cnt>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED rd
Client == C1 \/ C2 \/ C3 \/ C4 \/ C5 \/ C6 \/ C7 \/ C8 \/ C9 \/ C10 \/ CRet

\* ---- worker -------------------------------------------------------------------------------
WStep(p) == wpc' = p /\ (wpc = "move" \/ skip' = skip) /\ UNCHANGED <<now, cb, t0, iv>> /\ UNCHANGED cl /\ UNCHANGED rd
Worker ==
  \/ wpc = "on" /\ mtx = 0 /\ flag' = TRUE /\ WStep("enter") /\ UNCHANGED <<mtx, due, inv, mis, waiting>>
  \/ wpc = "enter" /\ mtx = 0 /\ mtx' = 2 /\ WStep("loop") /\ UNCHANGED <<flag, due, inv, mis, waiting>>
  \/ /\ wpc = "loop" /\ (IF flag THEN mtx' = 2 /\ WStep("pred") ELSE mtx' = 0 /\ WStep("exit")) /\ UNCHANGED <<flag, due, inv, mis, waiting>>
  \/ /\ wpc = "pred" /\ (IF ~flag THEN mtx' = 0 /\ WStep("exit") ELSE mtx' = 2 /\ WStep("block")) /\ UNCHANGED <<flag, due, inv, mis, waiting>>
  \/ wpc = "block" /\ mtx' = 0 /\ waiting' = TRUE /\ WStep("wait") /\ UNCHANGED <<flag, due, inv, mis>>
  \/ wpc = "wait" /\ now >= due /\ waiting' = FALSE /\ WStep("timeout") /\ UNCHANGED <<flag, mtx, due, inv, mis>>
  \/ wpc = "wait" /\ waiting' = FALSE /\ WStep("relock") /\ UNCHANGED <<flag, mtx, due, inv, mis>>      \* spurious
  \/ wpc = "relock" /\ mtx = 0 /\ mtx' = 2 /\ WStep("pred") /\ UNCHANGED <<flag, due, inv, mis, waiting>>
  \/ /\ wpc = "timeout" /\ mtx = 0
     /\ IF ~flag /\ Bug # "fire_after_stop" THEN UNCHANGED mtx /\ WStep("exit") ELSE mtx' = 2 /\ WStep("fire")
     /\ UNCHANGED <<flag, due, inv, mis, waiting>>
  \/ wpc = "fire" /\ WStep("in") /\ UNCHANGED <<flag, mtx, due, inv, mis, waiting>>
  \/ wpc = "in" /\ WStep(IF Bug = "ok_move_first" THEN "move" ELSE "count") /\ UNCHANGED <<flag, mtx, due, inv, mis, waiting>>                    \* the callback ends
  \/ wpc = "count" /\ inv' = inv + 1 /\ WStep(IF Bug = "ok_move_first" THEN "loop" ELSE "move") /\ UNCHANGED <<flag, mtx, due, mis, waiting>>
  \/ /\ wpc = "move"
     /\ LET first == due + iv
            k == IF first >= now THEN 0 ELSE (now - first + iv - 1) \div iv
            late == IF first > now THEN 0 ELSE (now - first) \div iv + 1
        IN CASE Bug = "drift"   -> due' = now + iv /\ skip' = k
             [] Bug = "catchup" -> due' = first /\ skip' = 0
             [] Bug = "no_count" -> due' = first + k * iv /\ skip' = 0
             [] Bug = "late_skip" -> due' = first + late * iv /\ skip' = late
             [] OTHER -> due' = first + k * iv /\ skip' = k
     /\ WStep("add") /\ UNCHANGED <<flag, mtx, inv, mis, waiting>>
  \/ wpc = "add" /\ Bug = "ok_single" /\ skip > 0 /\ mis' = mis + 1 /\ skip' = skip - 1 /\ UNCHANGED <<wpc, now, cb, t0, iv, flag, mtx, due, inv, waiting>> /\ UNCHANGED cl /\ UNCHANGED rd
  \/ wpc = "add" /\ (Bug = "ok_single" => skip = 0) /\ mis' = mis + skip /\ WStep(IF Bug = "ok_move_first" THEN "count" ELSE "loop") /\ UNCHANGED <<flag, mtx, due, inv, waiting>>

\* ---- reader of the counters -----------------------------------------------------------------
Reader ==
  /\ \/ /\ rpc = "idle" /\ rcnt < 1 /\ rcnt' = rcnt + 1 /\ rpc' = "read" /\ \E o \in {"inv", "mis"} : rop' = [NoOp EXCEPT !.op = o]
     \/ /\ rpc = "read" /\ rpc' = "ret" /\ rop' = [rop EXCEPT !.r = IF rop.op = "inv" THEN inv ELSE mis] /\ UNCHANGED rcnt
     \/ /\ rpc = "ret" /\ rpc' = "idle" /\ rop' = NoOp /\ UNCHANGED rcnt
  /\ UNCHANGED <<now, flag, mtx, cb, inv, mis>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED cl

\* ---- time ---------------------------------------------------------------------------------------
WStuck == wpc \in {"none", "exit", "in"} \/ (wpc = "wait" /\ now < due) \/ (wpc \in {"on", "enter", "relock", "timeout"} /\ mtx # 0)
CStuck == \/ cpc = "idle" \/ (cpc \in {"halt", "stop"} /\ mtx # 0) \/ (cpc = "join" /\ wpc \notin {"none", "exit"}) \/ (cpc = "watch" /\ wpc = "on")
Quiescent == WStuck /\ CStuck /\ rpc = "idle"
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ UNCHANGED <<flag, mtx, cb, inv, mis>> /\ UNCHANGED grid /\ UNCHANGED wk /\ UNCHANGED cl /\ UNCHANGED rd
Next == Call \/ Client \/ Worker \/ Reader \/ Tick
Spec == Init /\ [][Next]_vars

\* ---- refinement -----------------------------------------------------------------------------------
absLc == IF cpc \in {"launch", "watch"} THEN "running"
         ELSE IF wpc \in {"none", "exit"} THEN "stopped"
         ELSE IF cpc \in {"notify", "join"} THEN "halting" ELSE "running"
absPost == CASE wpc = "count" -> IF Bug = "ok_move_first" THEN {"count"} ELSE {"count", "move"}
             [] wpc = "move" -> IF Bug = "ok_move_first" THEN {"count", "move"} ELSE {"move"}
             [] wpc = "add" -> (IF Bug = "ok_move_first" THEN {"count"} ELSE {}) \cup (IF skip > 0 THEN {"add"} ELSE {})
             [] OTHER -> {}
absRst == CASE cpc = "resetMis" -> {"inv"} [] cpc = "plan" -> {"inv", "mis"} [] OTHER -> {}
AbsC(d, r) == [op |-> cop.op, v |-> cop.v, d |-> d, r |-> r]
absPend == (IF cpc = "idle" THEN [x \in {} |-> 0]
            ELSE 1 :> AbsC(cpc \in {"ret", "launch", "watch"}, IF cpc \in {"launch", "watch"} THEN 1 ELSE cop.r))
           @@ (IF rpc = "idle" THEN [x \in {} |-> 0] ELSE 3 :> [op |-> rop.op, v |-> 0, d |-> rpc = "ret", r |-> rop.r])
A == INSTANCE HighPrecisionTimer WITH lc <- absLc, busy <- (IF wpc = "in" THEN 3 ELSE 0), post <- absPost, rst <- absRst, pend <- absPend
AbsNext == \/ A!Internal
           \/ A!Tick(now + 1, Quiescent)
           \/ cpc' # "idle" /\ A!Call(1, [op |-> cop'.op, v |-> cop'.v])
           \/ rpc' # "idle" /\ A!Call(3, [op |-> rop'.op, v |-> 0])
           \/ A!Ret(1, cop.op, cop.r) \/ A!Ret(3, rop.op, rop.r)
           \/ A!Begin(2, 1) \/ A!End(2, 1)
Refines == A!PInit /\ [][AbsNext]_(A!pvars)
Inv == A!TypeInv
QuietOk == Quiescent => A!Quiet
Monotone == [][(inv' < inv \/ mis' < mis) => cop.op = "start"]_vars
=============================================================================
