------------------------- MODULE TaskSchedulerImpl -------------------------
(* Implementation-level model of task_scheduler: the scheduler thread that    *)
(* sleeps on a condition variable until the earliest due time, the registry   *)
(* mutex, the life-cycle mutex, and clients performing up to MaxOps calls.    *)
(* The worker pool is represented by its own specification (a queue served    *)
(* by n workers).  Time is discrete and may pass at any moment, also while    *)
(* threads are in the middle of something.                                    *)
(* Checked: refinement of TaskScheduler (C06-C09); the punctuality part is in *)
(* TaskScheduler's Tick: if nobody can move, time may only pass when nothing  *)
(* that is due is left behind.  Bug # "none" selects a faulty variant.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, MaxOps, MaxTasks, Ops, Onces, Everies, Steps, Ids, MaxTime, HW, Bug

VARIABLES now, flag, rmtx, mtx,           \* clock, running flag, holders of the two mutexes (0: free, 99: scheduler thread)
          tasks,                          \* registry: set of [k, id, due, iv, en, u]
          spc, deadline, waiting,         \* scheduler thread; waiting: inside the condition variable
          tp, n, pq, taken, exec,         \* pool: running flag, size, queue, taken by a worker, thread -> k
          cpc, cop, cnt, ntask,
          info, fin, lost                 \* history

vars == <<now, flag, rmtx, mtx, tasks, spc, deadline, waiting, tp, n, pq, taken, exec, cpc, cop, cnt, ntask, info, fin, lost>>
sched == <<spc, deadline, waiting>>
pool == <<tp, n, pq, taken, exec>>
cli == <<cpc, cop, cnt, ntask>>
hist == <<info, fin, lost>>
S == 99
W(i) == 200 + i
Empty == [x \in {} |-> 0]
NoOp == [op |-> "", k |-> 0, id |-> 0, due |-> 0, iv |-> 0, v |-> 0, r |-> 0]

Init == /\ now = 0 /\ flag = FALSE /\ rmtx = 0 /\ mtx = 0 /\ tasks = {} /\ spc = "none" /\ deadline = 0 /\ waiting = FALSE
        /\ tp = FALSE /\ n = 0 /\ pq = <<>> /\ taken = {} /\ exec = Empty
        /\ cpc = [c \in Clients |-> "idle"] /\ cop = [c \in Clients |-> NoOp] /\ cnt = [c \in Clients |-> 0] /\ ntask = 0
        /\ info = Empty /\ fin = {} /\ lost = {}

Busy == Cardinality(taken) + Cardinality(DOMAIN exec)
CPc(c, p) == cpc' = [cpc EXCEPT ![c] = p]
Finish(c, r) == CPc(c, "ret") /\ cop' = [cop EXCEPT ![c].r = r]
OneShots(X) == {k \in X : ~info[k].rec}
PqTasks == {pq[i] : i \in DOMAIN pq}

\* ---- clients ------------------------------------------------------------------------
CallWith(c, o) == /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
                  /\ CPc(c, o.op)
                  /\ cop' = [cop EXCEPT ![c] = o]
                  /\ ntask' = IF o.k > 0 THEN ntask + 1 ELSE ntask
Calls == {[NoOp EXCEPT !.op = "start", !.v = 1], [NoOp EXCEPT !.op = "stop"]}
         \cup {[NoOp EXCEPT !.op = "once", !.k = ntask + 1, !.id = i, !.due = now + d] : i \in Ids, d \in Onces}
         \cup {[NoOp EXCEPT !.op = "every", !.k = ntask + 1, !.id = i, !.due = now + e[1], !.iv = e[2]] : i \in Ids, e \in Everies}
         \cup {[NoOp EXCEPT !.op = "remove", !.id = i] : i \in Ids}
         \cup {[NoOp EXCEPT !.op = "enable", !.id = i, !.v = b] : i \in Ids, b \in {0, 1}}
         \cup {[NoOp EXCEPT !.op = "update", !.id = i, !.v = s] : i \in Ids, s \in Steps}
Call(c) == /\ cpc[c] = "idle" /\ cnt[c] < MaxOps
           /\ \E o \in Calls : o.op \in Ops /\ (o.k > 0 => o.k <= MaxTasks) /\ CallWith(c, o)
           /\ UNCHANGED <<now, flag, rmtx, mtx, tasks>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED hist

Named(id) == {r \in tasks : r.id = id /\ id # 0}
Past(base, step) == IF base >= now THEN base ELSE base + ((now - base + step - 1) \div step) * step

Registry(c) ==
  /\ mtx = 0
  /\ \/ /\ cpc[c] \in {"once", "every"}
        /\ IF flag /\ (Named(cop[c].id) = {} \/ Bug = "dup_ids")
           THEN /\ tasks' = tasks \cup {[k |-> cop[c].k, id |-> cop[c].id, due |-> cop[c].due, iv |-> cop[c].iv, en |-> TRUE, u |-> FALSE]}
                /\ info' = info @@ (cop[c].k :> [kind |-> "val", a |-> 0, rec |-> cop[c].iv > 0])
                /\ CPc(c, IF Bug = "no_notify" \/ (Bug = "notify_if_empty" /\ tasks # {}) THEN "ret" ELSE "notify") /\ cop' = [cop EXCEPT ![c].r = 1]
           ELSE Finish(c, 0) /\ UNCHANGED <<tasks, info>>
        /\ UNCHANGED lost
     \/ /\ cpc[c] = "remove"
        /\ IF Named(cop[c].id) = {} THEN Finish(c, 0) /\ UNCHANGED <<tasks, lost>>
           ELSE /\ tasks' = tasks \ Named(cop[c].id) /\ lost' = lost \cup OneShots({r.k : r \in Named(cop[c].id)})
                /\ Finish(c, 1)
        /\ UNCHANGED info
     \/ /\ cpc[c] = "enable"
        /\ IF Named(cop[c].id) = {} THEN Finish(c, 0) /\ UNCHANGED tasks
           ELSE LET x == CHOOSE r \in Named(cop[c].id) : TRUE
                IN tasks' = (tasks \ {x}) \cup {[x EXCEPT !.en = (cop[c].v = 1)]} /\ Finish(c, 1)
        /\ UNCHANGED <<info, lost>>
     \/ /\ cpc[c] = "update"
        /\ IF \E r \in Named(cop[c].id) : r.iv > 0
           THEN LET x == CHOOSE r \in Named(cop[c].id) : TRUE
                IN /\ tasks' = (tasks \ {x}) \cup {[x EXCEPT !.iv = cop[c].v,
                                                         !.due = IF Bug = "update_from_now" THEN now + cop[c].v ELSE Past(x.due - x.iv, cop[c].v)]}
                   /\ CPc(c, IF Bug = "update_no_notify" THEN "ret" ELSE "notify") /\ cop' = [cop EXCEPT ![c].r = 1]
           ELSE Finish(c, 0) /\ UNCHANGED tasks
        /\ UNCHANGED <<info, lost>>
  /\ UNCHANGED <<now, flag, rmtx, mtx, cnt, ntask, fin>> /\ UNCHANGED sched /\ UNCHANGED pool

Notify == IF waiting THEN waiting' = FALSE /\ spc' = "notified" ELSE UNCHANGED <<waiting, spc>>
NotifyStep(c) == /\ cpc[c] = "notify" /\ Notify /\ CPc(c, "ret")
                 /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, deadline, cop, cnt, ntask>> /\ UNCHANGED pool /\ UNCHANGED hist

Start(c) ==
  \/ /\ cpc[c] = "start" /\ rmtx = 0
     /\ IF tp THEN Finish(c, 0) /\ UNCHANGED <<rmtx, tp, n>>
              ELSE tp' = TRUE /\ n' = (IF cop[c].v > HW THEN HW ELSE cop[c].v) /\ rmtx' = c /\ CPc(c, "start2") /\ UNCHANGED cop
     /\ UNCHANGED <<now, flag, mtx, tasks, spc, deadline, waiting, pq, taken, exec, cnt, ntask>> /\ UNCHANGED hist
  \/ /\ cpc[c] = "start2" /\ mtx = 0 /\ flag' = TRUE /\ CPc(c, "start3")
     /\ UNCHANGED <<now, rmtx, mtx, tasks, cop, cnt, ntask>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED hist
  \/ /\ cpc[c] = "start3" /\ spc' = "lock" /\ rmtx' = 0 /\ Finish(c, 1)
     /\ UNCHANGED <<now, flag, mtx, tasks, deadline, waiting, cnt, ntask>> /\ UNCHANGED pool /\ UNCHANGED hist

Stop(c) ==
  \/ /\ cpc[c] = "stop" /\ rmtx = 0 /\ mtx = 0
     /\ IF ~flag THEN Finish(c, 0) /\ UNCHANGED <<rmtx, mtx, flag>>
        ELSE flag' = FALSE /\ rmtx' = c /\ mtx' = c /\ CPc(c, "clear") /\ UNCHANGED cop
     /\ UNCHANGED <<now, tasks, cnt, ntask>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED hist
  \/ /\ cpc[c] = "clear" /\ mtx' = 0
     /\ IF Bug = "keep_tasks" THEN UNCHANGED <<tasks, lost>>
        ELSE tasks' = {} /\ lost' = lost \cup OneShots({r.k : r \in tasks})
     /\ CPc(c, "notifyStop")
     /\ UNCHANGED <<now, flag, rmtx, cop, cnt, ntask, info, fin>> /\ UNCHANGED sched /\ UNCHANGED pool
  \/ /\ cpc[c] = "notifyStop" /\ (IF Bug = "stop_no_notify" THEN UNCHANGED <<waiting, spc>> ELSE Notify) /\ CPc(c, "joinS")
     /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, deadline, cop, cnt, ntask>> /\ UNCHANGED pool /\ UNCHANGED hist
  \/ /\ cpc[c] = "joinS" /\ spc = "exit" /\ CPc(c, "tpstop")
     /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, cop, cnt, ntask>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED hist
  \/ /\ cpc[c] = "tpstop" /\ CPc(c, "tpjoin")
     /\ IF Bug = "keep_pool_queue" THEN UNCHANGED <<pq, lost>> ELSE pq' = <<>> /\ lost' = lost \cup OneShots(PqTasks)
     /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, cop, cnt, ntask, tp, n, taken, exec, info, fin>> /\ UNCHANGED sched
  \/ /\ cpc[c] = "tpjoin" /\ (Busy = 0 \/ Bug = "no_join") /\ tp' = FALSE /\ n' = 0 /\ rmtx' = 0 /\ Finish(c, 1)
     /\ UNCHANGED <<now, flag, mtx, tasks, cnt, ntask, pq, taken, exec>> /\ UNCHANGED sched /\ UNCHANGED hist
Ret(c) == /\ cpc[c] = "ret" /\ CPc(c, "idle") /\ cop' = [cop EXCEPT ![c] = NoOp]
          /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, cnt, ntask>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED hist

\* ---- scheduler thread ------------------------------------------------------------------
MinDue == CHOOSE d \in {r.due : r \in tasks} : \A r \in tasks : d <= r.due
SPc(p) == spc' = p
Same == UNCHANGED <<now, flag, rmtx, cpc, cop, cnt, ntask>>
Scheduler ==
  \/ \* top of the loop, mutex acquired
     /\ spc = "lock" /\ mtx = 0
     /\ IF ~flag THEN SPc("exit") /\ UNCHANGED <<deadline, waiting>>
        ELSE /\ waiting' = TRUE
             /\ IF tasks = {} THEN SPc("wait") /\ UNCHANGED deadline
                              ELSE SPc("waituntil") /\ deadline' = IF Bug = "stale_deadline" /\ deadline > 0 THEN deadline ELSE MinDue
     /\ Same /\ UNCHANGED <<mtx, tasks>> /\ UNCHANGED pool /\ UNCHANGED hist
  \/ \* deadline reached
     /\ spc = "waituntil" /\ now >= deadline /\ waiting' = FALSE /\ SPc("update")
     /\ Same /\ UNCHANGED <<mtx, tasks, deadline>> /\ UNCHANGED pool /\ UNCHANGED hist
  \/ \* woken: an untimed wait goes on to update_tasks, a timed one starts over (it had been in waituntil iff deadline is still ahead or it raced)
     /\ spc = "notified" /\ mtx = 0 /\ SPc("lock")
     /\ Same /\ UNCHANGED <<mtx, tasks, deadline, waiting>> /\ UNCHANGED pool /\ UNCHANGED hist
  \/ /\ spc = "update" /\ mtx = 0
     /\ IF ~flag THEN SPc("exit") /\ UNCHANGED mtx ELSE SPc("dispatch") /\ mtx' = S
     /\ Same /\ UNCHANGED <<tasks, deadline, waiting>> /\ UNCHANGED pool /\ UNCHANGED hist
  \/ \* update_tasks, one task at a time, earliest first: hand over, then compute the next due time
     /\ spc = "dispatch"
     /\ LET due == {r \in tasks : r.due <= now /\ ~r.u}
        IN IF due = {} THEN mtx' = 0 /\ SPc("lock") /\ UNCHANGED <<tasks, pq, lost>>
           ELSE LET r == CHOOSE x \in due : \A y \in due : (IF Bug = "scheduling_order" THEN x.k < y.k ELSE x.due < y.due) \/ (x.due = y.due /\ x.k <= y.k) \/ x = y
                IN /\ UNCHANGED mtx
                   /\ pq' = IF r.en \/ Bug = "ignore_disabled" THEN Append(pq, r.k) ELSE pq
                   /\ IF r.iv = 0
                      THEN tasks' = tasks \ {r} /\ lost' = (IF r.en THEN lost ELSE lost \cup {r.k}) /\ SPc("dispatch")
                      ELSE tasks' = (tasks \ {r}) \cup {[r EXCEPT !.u = TRUE]} /\ UNCHANGED lost /\ SPc("settle")
     /\ Same /\ UNCHANGED <<deadline, waiting, tp, n, taken, exec, info, fin>>
  \/ /\ spc = "settle"
     /\ LET r == CHOOSE x \in tasks : x.u
        IN tasks' = (tasks \ {r}) \cup {[r EXCEPT !.u = FALSE,
                       !.due = CASE Bug = "drift" -> now + r.iv
                                 [] Bug = "catch_up" -> r.due + r.iv
                                 [] OTHER -> Past(r.due + r.iv, r.iv)]}
     /\ SPc("dispatch") /\ Same /\ UNCHANGED <<mtx, deadline, waiting>> /\ UNCHANGED pool /\ UNCHANGED hist
Spurious == /\ waiting /\ waiting' = FALSE /\ SPc("notified")
            /\ Same /\ UNCHANGED <<mtx, tasks, deadline>> /\ UNCHANGED pool /\ UNCHANGED hist

\* ---- workers ------------------------------------------------------------------------------
PoolTake == /\ tp /\ pq # <<>> /\ Busy < n
            /\ pq' = Tail(pq) /\ taken' = taken \cup {Head(pq)}
            /\ ~(Head(pq) \in taken)          \* a recurring task twice in flight: keep the model's set simple
            /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, tp, n, exec>> /\ UNCHANGED sched /\ UNCHANGED cli /\ UNCHANGED hist
Begin(i) == /\ W(i) \notin DOMAIN exec
            /\ \E k \in taken : taken' = taken \ {k} /\ exec' = exec @@ (W(i) :> k)
            /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, tp, n, pq>> /\ UNCHANGED sched /\ UNCHANGED cli /\ UNCHANGED hist
End(i) == /\ W(i) \in DOMAIN exec
          /\ fin' = fin \cup OneShots({exec[W(i)]})
          /\ exec' = [t \in DOMAIN exec \ {W(i)} |-> exec[t]]
          /\ UNCHANGED <<now, flag, rmtx, mtx, tasks, tp, n, pq, taken, info, lost>> /\ UNCHANGED sched /\ UNCHANGED cli

\* ---- time ------------------------------------------------------------------------------------
CStuck(c) == \/ cpc[c] = "idle"
             \/ cpc[c] \in {"start", "stop"} /\ (rmtx # 0 \/ mtx # 0)
             \/ cpc[c] \in {"once", "every", "remove", "enable", "update", "start2"} /\ mtx # 0
             \/ cpc[c] = "joinS" /\ spc # "exit"
             \/ cpc[c] = "tpjoin" /\ Busy > 0
SStuck == spc \in {"none", "wait", "exit"} \/ (spc = "waituntil" /\ now < deadline) \/ (spc \in {"lock", "notified", "update"} /\ mtx # 0)
PoolStuck == taken = {} /\ (tp => pq = <<>> \/ Busy = n)
Quiescent == (\A c \in Clients : CStuck(c)) /\ SStuck /\ PoolStuck
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ UNCHANGED <<flag, rmtx, mtx, tasks>> /\ UNCHANGED sched /\ UNCHANGED pool /\ UNCHANGED cli /\ UNCHANGED hist

Next == \/ \E c \in Clients : Call(c) \/ Registry(c) \/ NotifyStep(c) \/ Start(c) \/ Stop(c) \/ Ret(c)
        \/ Scheduler \/ Spurious \/ PoolTake \/ (\E i \in 1..HW : Begin(i) \/ End(i)) \/ Tick
Spec == Init /\ [][Next]_vars

\* ---- refinement ---------------------------------------------------------------------------------
StopPc(p) == p \in {"clear", "notifyStop", "joinS", "tpstop", "tpjoin"}
absLc == IF \E c \in Clients : cpc[c] = "clear" THEN "stopping"
         ELSE IF \E c \in Clients : StopPc(cpc[c]) THEN "cleared"
         ELSE IF flag THEN "running" ELSE "stopped"
absN == IF absLc = "stopped" THEN 0 ELSE n
AbsCall(o) == CASE o.op \in {"once", "every"} -> [op |-> o.op, k |-> o.k, id |-> o.id, due |-> o.due, iv |-> o.iv, kind |-> "val", a |-> 0]
                [] o.op = "enable" -> [op |-> o.op, id |-> o.id, v |-> (o.v = 1)]
                [] OTHER -> [op |-> o.op, id |-> o.id, v |-> o.v]
absPend == [c \in {x \in Clients : cpc[x] # "idle"} |->
              LET o == cop[c]
                  a == AbsCall(o)
                  done == cpc[c] \in {"ret", "notify", "start3"}
                  r == IF cpc[c] \in {"start3"} THEN 1 ELSE o.r
                  op == IF StopPc(cpc[c]) \/ (o.op = "stop" /\ cpc[c] = "ret" /\ o.r = 1) THEN "stopping" ELSE o.op
              IN [a EXCEPT !.op = op] @@ [d |-> done, r |-> r]]
A == INSTANCE TaskScheduler WITH lc <- absLc, n <- absN, reg <- tasks, bag <- pq, taken <- [k \in taken |-> 1], exec <- exec,
                                 hw <- HW, pend <- absPend
\* the call of a client is the one it just recorded, its result the one it is about to return
AbsNext == \/ \E c \in Clients : \/ cpc[c] = "idle" /\ cpc'[c] # "idle" /\ A!Call(c, AbsCall(cop'[c]))
                                 \/ cpc[c] = "ret" /\ A!Ret(c, cop[c].op, cop[c].r)
           \/ IF now' # now THEN A!Tick(now + 1, Quiescent) ELSE A!Internal(TRUE)
           \/ \E i \in 1..HW, k \in 1..MaxTasks : A!Begin(W(i), k, 0) \/ A!End(W(i), k)
Refines == A!PInit(HW) /\ [][AbsNext]_(A!pvars)
Inv == A!TypeInv
QuietOk == Quiescent => A!Quiet

DefEveries == {<<0, 2>>, <<1, 1>>}
=============================================================================
