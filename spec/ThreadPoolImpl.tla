-------------------------- MODULE ThreadPoolImpl --------------------------
(* Implementation-level model of thread_pool: the life-cycle mutex held by    *)
(* start and stop, the atomic running flag, the task mutex, the condition     *)
(* variable with one notify_one per submitted task, the start-up latch and    *)
(* the joining of the workers.  Clients perform up to MaxOps calls each,      *)
(* chosen freely from Ops ("run" submits a new task).                         *)
(* Worker threads of one start are 1..size; they have all exited before the   *)
(* next start.                                                                *)
(* Checked: refinement of ThreadPool (C03, C04) and, in every state in which  *)
(* nobody can move, ThreadPool's Quiet (no lost wake-up, no stop that hangs,  *)
(* no task left behind).  Bug # "none" selects a faulty variant.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, Ops, MaxOps, HW, Sizes, MaxTasks, Bug

VARIABLES running, rmtx,         \* flag; holder of the life-cycle mutex (0: free)
          tmtx,                  \* holder of the task mutex (0: free)
          tq,                    \* the task queue
          size, wpc, wtask,      \* workers: number, program counter, current task
          waiting,               \* workers inside the condition variable
          latch,                 \* arrivals still missing
          cpc, cop, cnt,         \* clients: program counter, current call, calls made
          ntask, status          \* tasks submitted so far, history: task -> state

vars == <<running, rmtx, tmtx, tq, size, wpc, wtask, waiting, latch, cpc, cop, cnt, ntask, status>>
W(i) == 100 + i
Workers == 1..HW
NoOp == [op |-> "", n |-> 0, k |-> 0, r |-> 0]

Init == /\ running = FALSE /\ rmtx = 0 /\ tmtx = 0 /\ tq = <<>> /\ size = 0
        /\ wpc = [w \in Workers |-> "none"] /\ wtask = [w \in Workers |-> 0] /\ waiting = {} /\ latch = 0
        /\ cpc = [c \in Clients |-> "idle"] /\ cop = [c \in Clients |-> NoOp] /\ cnt = [c \in Clients |-> 0]
        /\ ntask = 0 /\ status = [k \in {} |-> ""]

Clamp(k) == IF k < 1 THEN 1 ELSE IF k > HW THEN HW ELSE k
CPc(c, p) == cpc' = [cpc EXCEPT ![c] = p]
Finish(c, r) == /\ CPc(c, "ret") /\ cop' = [cop EXCEPT ![c].r = r]

\* ---- clients -------------------------------------------------------------------
Call(c) ==
  /\ cpc[c] = "idle" /\ cnt[c] < MaxOps
  /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
  /\ \/ /\ "start" \in Ops /\ CPc(c, "start") /\ \E s \in Sizes : cop' = [cop EXCEPT ![c] = [NoOp EXCEPT !.op = "start", !.n = s]]
        /\ UNCHANGED ntask
     \/ /\ "stop" \in Ops /\ CPc(c, "stop") /\ cop' = [cop EXCEPT ![c] = [NoOp EXCEPT !.op = "stop"]] /\ UNCHANGED ntask
     \/ /\ "run" \in Ops /\ ntask < MaxTasks
        /\ ntask' = ntask + 1
        /\ CPc(c, "run") /\ cop' = [cop EXCEPT ![c] = [NoOp EXCEPT !.op = "run", !.k = ntask + 1]]
  /\ UNCHANGED <<running, rmtx, tmtx, tq, size, wpc, wtask, waiting, latch, status>>

Start(c) ==
  \/ /\ cpc[c] = "start" /\ rmtx = 0
     /\ IF running THEN /\ Finish(c, 0)
                        /\ UNCHANGED <<running, rmtx, size, wpc, latch>>
        ELSE /\ running' = TRUE /\ rmtx' = c
             /\ size' = Clamp(cop[c].n)
             /\ wpc' = [w \in Workers |-> IF w <= Clamp(cop[c].n) THEN "latch" ELSE "none"]
             /\ latch' = Clamp(cop[c].n) + 1
             /\ CPc(c, "arrive") /\ UNCHANGED cop
     /\ UNCHANGED <<tmtx, tq, wtask, waiting, cnt, ntask, status>>
  \/ /\ cpc[c] = "arrive" /\ latch' = latch - 1 /\ CPc(c, "latched")
     /\ UNCHANGED <<running, rmtx, tmtx, tq, size, wpc, wtask, waiting, cop, cnt, ntask, status>>
  \/ /\ cpc[c] = "latched" /\ latch = 0 /\ rmtx' = 0 /\ Finish(c, 1)
     /\ UNCHANGED <<running, tmtx, tq, size, wpc, wtask, waiting, latch, cnt, ntask, status>>

Stop(c) ==
  \/ /\ cpc[c] = "stop" /\ rmtx = 0
     /\ IF ~running THEN Finish(c, 0) /\ UNCHANGED <<running, rmtx>>
        ELSE running' = FALSE /\ rmtx' = c /\ CPc(c, "clear") /\ UNCHANGED cop
     /\ UNCHANGED <<tmtx, tq, size, wpc, wtask, waiting, latch, cnt, ntask, status>>
  \/ \* { scoped_lock lock(_task_mutex); _task_queue = {}; }
     /\ cpc[c] = "clear" /\ (tmtx = 0 \/ Bug = "no_lock_stop")
     /\ IF Bug = "keep_queue" THEN UNCHANGED <<tq, status>>
        ELSE /\ tq' = <<>>
             /\ status' = [k \in DOMAIN status |-> IF status[k] = "queued" THEN "dropped" ELSE status[k]]
     /\ CPc(c, IF Bug = "no_notify_stop" THEN "join" ELSE "notify")
     /\ UNCHANGED <<running, rmtx, tmtx, size, wpc, wtask, waiting, latch, cop, cnt, ntask>>
  \/ /\ cpc[c] = "notify"
     /\ \E S \in (IF Bug = "notify_one_stop" THEN {{w} : w \in waiting} \cup (IF waiting = {} THEN {{}} ELSE {}) ELSE {waiting}) :
           /\ waiting' = waiting \ S
           /\ wpc' = [w \in Workers |-> IF w \in S THEN "relock" ELSE wpc[w]]
     /\ CPc(c, "join")
     /\ UNCHANGED <<running, rmtx, tmtx, tq, status, size, wtask, latch, cop, cnt, ntask>>
  \/ /\ cpc[c] = "join"
     /\ Bug = "no_join" \/ \A w \in 1..size : wpc[w] = "exit"
     /\ size' = 0 /\ rmtx' = 0 /\ Finish(c, 1)
     /\ wpc' = [w \in Workers |-> "none"]
     /\ UNCHANGED <<running, tmtx, tq, wtask, waiting, latch, cnt, ntask, status>>

Run(c) ==
  \/ /\ cpc[c] = "run" /\ tmtx = 0
     /\ tq' = Append(tq, cop[c].k)
     /\ status' = status @@ (cop[c].k :> "queued")
     /\ CPc(c, "notify1")
     /\ UNCHANGED <<running, rmtx, tmtx, size, wpc, wtask, waiting, latch, cop, cnt, ntask>>
  \/ /\ cpc[c] = "notify1"
     /\ \E S \in (IF waiting = {} \/ Bug = "no_notify_run" \/ (Bug = "notify_if_first" /\ Len(tq) # 1) THEN {{}} ELSE {{w} : w \in waiting}) :
           /\ waiting' = waiting \ S
           /\ wpc' = [w \in Workers |-> IF w \in S THEN "relock" ELSE wpc[w]]
     /\ Finish(c, 1)
     /\ UNCHANGED <<running, rmtx, tmtx, tq, size, wtask, latch, cnt, ntask, status>>
Ret(c) == /\ cpc[c] = "ret" /\ CPc(c, "idle") /\ cop' = [cop EXCEPT ![c] = NoOp]
          /\ UNCHANGED <<running, rmtx, tmtx, tq, size, wpc, wtask, waiting, latch, cnt, ntask, status>>

\* ---- workers ---------------------------------------------------------------------
WPc(w, p) == wpc' = [wpc EXCEPT ![w] = p]
Keep == UNCHANGED <<running, rmtx, size, cpc, cop, cnt, ntask>>
Worker(w) ==
  \/ /\ wpc[w] = "latch" /\ latch' = latch - 1 /\ WPc(w, "latched") /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, waiting, status>>
  \/ /\ wpc[w] = "latched" /\ latch = 0 /\ WPc(w, "loop") /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, waiting, latch, status>>
  \/ /\ wpc[w] = "loop" /\ WPc(w, IF running THEN "relock" ELSE "exit") /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, waiting, latch, status>>
  \/ \* (re)acquire the task mutex
     /\ wpc[w] = "relock" /\ tmtx = 0 /\ tmtx' = W(w) /\ WPc(w, "pred") /\ Keep /\ UNCHANGED <<tq, wtask, waiting, latch, status>>
  \/ \* evaluate the predicate: !empty || !running
     /\ wpc[w] = "pred"
     /\ WPc(w, IF tq # <<>> \/ ~running THEN "check" ELSE "block")
     /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, waiting, latch, status>>
  \/ \* release the mutex and wait, atomically
     /\ wpc[w] = "block" /\ tmtx' = 0 /\ waiting' = waiting \cup {w} /\ WPc(w, "wait")
     /\ Keep /\ UNCHANGED <<tq, wtask, latch, status>>
  \/ \* if (!_is_running) return;
     /\ wpc[w] = "check"
     /\ IF ~running /\ ~(Bug = "drain_on_stop" /\ tq # <<>>) THEN tmtx' = 0 /\ WPc(w, "exit") /\ UNCHANGED <<tq, wtask, status>>
        ELSE IF tq = <<>> THEN tmtx' = 0 /\ WPc(w, "crash") /\ UNCHANGED <<tq, wtask, status>>
        ELSE /\ tq' = Tail(tq) /\ wtask' = [wtask EXCEPT ![w] = Head(tq)] /\ tmtx' = 0 /\ WPc(w, "exec")
             /\ status' = [status EXCEPT ![Head(tq)] = "taken"]
     /\ Keep /\ UNCHANGED <<waiting, latch>>
  \/ /\ wpc[w] = "exec" /\ WPc(w, "body") /\ status' = [status EXCEPT ![wtask[w]] = "exec"]
     /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, waiting, latch>>
TaskEnd(w) ==
  /\ wpc[w] = "body" /\ WPc(w, "loop") /\ status' = [status EXCEPT ![wtask[w]] = "ended"] /\ wtask' = [wtask EXCEPT ![w] = 0]
  /\ Keep /\ UNCHANGED <<tmtx, tq, waiting, latch>>
Spurious(w) == /\ wpc[w] = "wait" /\ waiting' = waiting \ {w} /\ WPc(w, "relock")
               /\ Keep /\ UNCHANGED <<tmtx, tq, wtask, latch, status>>

CStep(c) == Start(c) \/ Stop(c) \/ Run(c) \/ Ret(c)
Next == \/ \E c \in Clients : Call(c) \/ CStep(c)
        \/ \E w \in Workers : Worker(w) \/ TaskEnd(w) \/ Spurious(w)
Spec == Init /\ [][Next]_vars

\* ---- refinement --------------------------------------------------------------------
Executing == {w \in Workers : wpc[w] = "body"}
Stopping == \E c \in Clients : cpc[c] \in {"notify", "join"} /\ cop[c].op = "stop" /\ cpc[c] # "ret"
absLc == IF \E c \in Clients : cpc[c] = "clear" THEN "running"
         ELSE IF Stopping THEN "stopping" ELSE IF running THEN "running" ELSE "stopped"
absN == IF absLc = "stopped" THEN 0 ELSE size
absSt == [k \in DOMAIN status |-> [s |-> status[k], kind |-> "val", a |-> k]]
absExec == [t \in {W(w) : w \in Executing} |-> wtask[t - 100]]
\* a start that has done its work is done (workers idle at the latch)
absPend == [c \in {x \in Clients : cpc[x] # "idle"} |->
              LET o == cop[c] IN
              CASE o.op = "run"   -> [op |-> "run", k |-> o.k, kind |-> "val", a |-> o.k, d |-> cpc[c] # "run", r |-> IF cpc[c] # "run" THEN 1 ELSE 0]
                [] o.op = "start" -> [op |-> "start", n |-> o.n, d |-> cpc[c] # "start", r |-> IF cpc[c] \in {"arrive", "latched"} THEN 1 ELSE o.r]
                [] o.op = "stop"  -> [op |-> IF cpc[c] \in {"notify", "join"} \/ (cpc[c] = "ret" /\ o.r = 1) THEN "stopping" ELSE "stop",
                                      d |-> cpc[c] = "ret", r |-> o.r]]
A == INSTANCE ThreadPool WITH lc <- absLc, n <- absN, hw <- HW, queue <- tq, st <- absSt, exec <- absExec, pend <- absPend
AbsCall(o) == CASE o.op = "run"   -> [op |-> "run", k |-> o.k, kind |-> "val", a |-> o.k]
                [] o.op = "start" -> [op |-> "start", n |-> o.n]
                [] o.op = "stop"  -> [op |-> "stop"]
\* the call of a client is the one it just recorded, its result the one it is about to return
AbsNext == \/ \E c \in Clients : \/ cpc[c] = "idle" /\ cpc'[c] # "idle" /\ A!Call(c, AbsCall(cop'[c]))
                                 \/ cpc[c] = "ret" /\ A!Ret(c, cop[c].op, cop[c].r)
           \/ A!Internal
           \/ \E w \in Workers, k \in 1..MaxTasks : A!Begin(W(w), k, k) \/ A!End(W(w), k)
Refines == A!PInit(HW) /\ [][AbsNext]_(A!pvars)

\* ---- properties -----------------------------------------------------------------------
NoCrash == \A w \in Workers : wpc[w] # "crash"
Inv == NoCrash /\ A!TypeInv
\* nobody can move (apart from running task bodies, which may take arbitrarily long, and spurious wake-ups)
MutexBlocked(c) == cpc[c] \in {"start", "stop"} /\ rmtx # 0
Stuck(c) == \/ cpc[c] = "idle" \/ MutexBlocked(c)
            \/ cpc[c] = "latched" /\ latch # 0
            \/ cpc[c] \in {"clear", "run"} /\ tmtx # 0
            \/ cpc[c] = "join" /\ \E w \in 1..size : wpc[w] # "exit"
WStuck(w) == wpc[w] \in {"none", "wait", "body", "exit"} \/ (wpc[w] = "latched" /\ latch # 0) \/ (wpc[w] = "relock" /\ tmtx # 0)
Quiescent == (\A c \in Clients : Stuck(c)) /\ (\A w \in Workers : WStuck(w))
QuietOk == Quiescent => A!Quiet
=============================================================================
