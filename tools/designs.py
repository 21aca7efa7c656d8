"""Implementation-level design models: each refines the API-level specification the traces of the real code are checked
against.  Per property: the models to check exhaustively and the faulty variants the properties must reject."""
import concurrent.futures as cf
import vlib


def cfg(consts, inv=("Inv", "QuietOk"), props=("Refines",)):
    c = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    c += "".join(f"INVARIANT {i}\n" for i in inv) + "".join(f"PROPERTY {p}\n" for p in props) + "CONSTANTS\n"
    for k, v in consts.items():
        c += f"{k} {v}\n" if str(v).startswith("<-") else f"{k} = {v}\n"
    return c


def bq(threads, ops, maxops, cap, bug="none"):
    return cfg(dict(Threads=threads, Ops=ops, MaxOps=maxops, Capacity=cap, Spurious="TRUE", Bug=f'"{bug}"'), inv=("Inv", "NoLostWakeup", "Fifo"))


def pool(clients, maxops, tasks, sizes="{2}", hw=2, bug="none"):
    return cfg(dict(Clients=clients, Ops='{"start","stop","run"}', MaxOps=maxops, HW=hw, Sizes=sizes, MaxTasks=tasks, Bug=f'"{bug}"'))


def sched(clients, maxops, tasks, ops, onces, steps, ids, maxtime, bug="none", hw=1):
    return cfg(dict(Clients=clients, MaxOps=maxops, MaxTasks=tasks, Ops=ops, Onces=onces, Everies="<- DefEveries", Steps=steps, Ids=ids,
                    MaxTime=maxtime, HW=hw, Bug=f'"{bug}"'))


def sA(bug="none", t=4, m=3):
    return sched("{1}", m, 1, '{"start","every","update"}', "{0}", "{1,3}", "{1}", t, bug)


def sB(bug="none", t=1, m=2):
    return sched("{1,2}", m, 2, '{"start","stop","once"}', "{0,1}", "{1}", "{0}", t, bug)


def sC(bug="none", t=2, m=4):
    return sched("{1}", m, 2, '{"start","once","every","remove","enable"}', "{0,1}", "{1}", "{1}", t, bug)


def sD(bug="none", onces="{0,1,2}", ids="{0}"):
    return sched("{1,2}", 2, 2, '{"start","once"}', onces, "{1}", ids, 2, bug)


def disp(ops, events='{"a"}', sigs='{"i"}', bug="none", m=3, h=2):
    return cfg(dict(Clients="{1,2}", MaxOps=m, MaxH=h, Ops=ops, Events=events, Sigs=sigs, HW=1, Bug=f'"{bug}"'))


D1 = '{"start","stop","add","emit"}'
D2 = '{"add","emit","rmh","rme"}'


def timer(bug="none", m=4, t=5, ivs="{0,1,2}"):
    return cfg(dict(MaxOps=m, Intervals=ivs, MaxTime=t, Bug=f'"{bug}"'), props=("Refines", "Monotone"))


def obs(bug="none", threads="{1,2}", m=3):
    return cfg(dict(Threads=threads, MaxOps=m, Values="{1000,1001,2000}", Bug=f'"{bug}"'))


def quit_(bug="none", req="{1,2}", m=2):
    return cfg(dict(Requesters=req, Waiters="{11,12}", MaxOps=m, Bug=f'"{bug}"'), inv=("Inv", "QuietOk", "Lost"))


def hb(nt, n, bug="none"):
    return cfg(dict(NT=nt, MaxLen=n, Bug=f'"{bug}"'), inv=("Exact",), props=())


def single(bug="none", threads="{1,2,3}", m=2, types="{1,2}"):
    return cfg(dict(Threads=threads, Types=types, MaxOps=m, Bug=f'"{bug}"'), inv=("Inv",), props=("Refines", "Returns"))


def limiter(bug="none", rates="DefRates", t=9):
    return cfg(dict(Rates=f"<- {rates}", MaxTime=t, Bug=f'"{bug}"'))


def locator(bug="none", n=3, types="{1,2}"):
    return cfg(dict(Types=types, Refs="{1,2}", MaxObj=n, Bug=f'"{bug}"'), inv=("Inv",), props=("Refines", "Stable"))


ALL4 = '{"push","pop","trypush","trypop"}'
ALL8 = '{"push","pushm","pop","trypush","trypushm","trypop","size","cap"}'
Q, B, P, S, E, T, O, U = ("BlockingQueueImpl",) * 2 + ("ThreadPoolImpl", "TaskSchedulerImpl", "EventDispatcherImpl", "TimerImpl", "ObservableImpl", "QuitImpl")

# property -> (quick models, further models of the thorough tier, faulty variants)
H, L, K, G = "HBModel", "LimiterImpl", "LocatorImpl", "SingletonImpl"
TABLE = {
    "C31": ([("vector clocks against the definition, 2 threads", H, hb(2, 5)), ("3 threads", H, hb(3, 3))],
            [("3 threads x 4 events", H, hb(3, 4)), ("2 threads x 6 events", H, hb(2, 6))],
            [("a release keeps what was released before", H, hb(3, 4, "rel_keeps")), ("a read-modify-write ends the release sequence", H, hb(3, 4, "rmw_replaces")),
             ("a relaxed store continues the release sequence", H, hb(3, 4, "relaxed_keeps"))]),
    "C01": ([("2 threads, capacity 0, all operations", Q, bq("{1,2}", ALL8, 2, 0)), ("3 threads, capacity 2", Q, bq("{1,2,3}", ALL4, 2, 2))],
            [("2 threads x 4 operations", Q, bq("{1,2}", ALL8, 4, 2)), ("3 threads x 3 operations", Q, bq("{1,2,3}", '{"push","pop","trypop"}', 3, 2))],
            [("capacity not respected", Q, bq("{1,2}", ALL4, 2, 1, "capacity")), ("no recheck after a wake-up", Q, bq("{1,2,3}", ALL4, 2, 1, "no_recheck"))]),
    "C02": ([("3 threads, capacity 1", Q, bq("{1,2,3}", ALL4, 2, 1)), ("3 threads, capacity 2", Q, bq("{1,2,3}", ALL4, 2, 2))],
            [("4 threads, capacity 2", Q, bq("{1,2,3,4}", '{"push","pop"}', 2, 2)), ("4 threads, capacity 1", Q, bq("{1,2,3,4}", '{"push","pop"}', 2, 1)),
             ("3 threads x 3 operations", Q, bq("{1,2,3}", '{"push","pop","trypop"}', 3, 2))],
            [("one waiter woken per first item", Q, bq("{1,2,3}", '{"push","pop"}', 2, 2, "notify_one")),
             ("first item decided after unlocking", Q, bq("{1,2,3}", '{"push","pop"}', 2, 2, "late_size")),
             ("room signalled one too late", Q, bq("{1,2}", '{"push","pop"}', 2, 1, "notify_at_cap")),
             ("no notification", Q, bq("{1,2}", '{"push","pop"}', 2, 1, "no_notify"))]),
    "C03": ([("2 clients x 3 calls, 2 workers", P, pool("{1,2}", 3, 2))],
            [("1 client x 5 calls, 3 workers", P, pool("{1}", 5, 3, "{3}", 3)), ("2 clients x 4 calls, 1-2 workers", P, pool("{1,2}", 4, 2, "{1,2}"))],
            [("no notification when a task is queued", P, pool("{1,2}", 3, 2, bug="no_notify_run")),
             ("notification only for the first queued task", P, pool("{1,2}", 3, 2, bug="notify_if_first"))]),
    "C04": ([("2 clients x 3 calls, 2 workers", P, pool("{1,2}", 3, 2))],
            [("1 client x 5 calls, 3 workers", P, pool("{1}", 5, 3, "{3}", 3)), ("2 clients x 4 calls, 1-2 workers", P, pool("{1,2}", 4, 2, "{1,2}"))],
            [("queue kept by stop", P, pool("{1,2}", 3, 2, bug="keep_queue")), ("stop without notification", P, pool("{1,2}", 3, 2, bug="no_notify_stop")),
             ("stop wakes one worker", P, pool("{1,2}", 3, 2, bug="notify_one_stop")), ("stop does not join", P, pool("{1,2}", 3, 2, bug="no_join")),
             ("stop without the task mutex", P, pool("{1,2}", 3, 2, bug="no_lock_stop")), ("queued tasks finish after stop", P, pool("{1,2}", 3, 2, bug="drain_on_stop"))]),
    "C06": ([("2 clients scheduling", S, sD(onces="{0,1}")), ("schedule, stop, restart", S, sB())],
            [("2 clients, ids, three due times", S, sD(ids="{0,1}"))],
            [("deadline not refreshed", S, sD("stale_deadline")), ("wake-up only if the registry was empty", S, sD("notify_if_empty")), ("handed over in the order of scheduling", S, sD("scheduling_order", onces="{0,1}")),
             ("no wake-up", S, sB("no_notify"))]),
    "C07": ([("grid and updates", S, sA())], [("grid and updates, longer", S, sA(t=7, m=4))],
            [("next due time from now", S, sA("drift")), ("missed points made up for", S, sA("catch_up")),
             ("update from now", S, sA("update_from_now")), ("update without wake-up", S, sA("update_no_notify"))]),
    "C08": ([("registry operations", S, sC())], [("registry operations, longer", S, sC(t=3, m=5))],
            [("duplicate ids", S, sC("dup_ids")), ("disabled tasks executed", S, sC("ignore_disabled"))]),
    "C09": ([("2 clients: start, stop, schedule", S, sB())], [("2 clients x 3 calls", S, sB(t=2, m=3))],
            [("tasks survive stop", S, sB("keep_tasks")), ("stop without wake-up", S, sB("stop_no_notify")),
             ("pool queue survives stop", S, sB("keep_pool_queue")), ("stop does not join", S, sB("no_join"))]),
    "C10": ([("emission, start, stop", E, disp(D1)), ("emission and removal", E, disp(D2, '{"a","ab"}', m=2))],
            [("emission and removal, two signatures", E, disp(D2, '{"a","ab"}', '{"i","s"}'))],
            [("signature ignored", E, disp(D2, '{"a"}', '{"i","s"}', "any_sig")), ("executions out of order", E, disp(D1, bug="lifo")),
             ("handler table read again for every handler", E, disp(D2, bug="live_table"))]),
    "C11": ([("registry", E, disp(D2, '{"a","ab"}', m=2))], [("registry, two signatures", E, disp(D2, '{"a","ab"}', '{"i","s"}'))],
            [("ids per event", E, disp(D2, '{"a","ab"}', '{"i","s"}', "id_per_event")), ("removal by prefix", E, disp(D2, '{"a","ab"}', '{"i","s"}', "prefix"))]),
    "C12": ([("emission, start, stop", E, disp(D1))], [("emission, start, stop, removal", E, disp('{"start","stop","add","emit","rmh"}'))],
            [("handlers survive stop", E, disp(D1, bug="keep_handlers")), ("queue survives stop", E, disp(D1, bug="keep_queue"))]),
    "C13": ([("4 calls, 5 time steps", T, timer()), ("missed ticks counted one by one", T, timer("ok_single")), ("invocation counted last", T, timer("ok_move_first"))], [("5 calls, 7 time steps", T, timer(m=5, t=7, ivs="{1,2,3}"))],
            [(w, T, timer(b)) for w, b in (("next tick from now", "drift"), ("missed ticks fired", "catchup"), ("missed ticks not counted", "no_count"),
                                           ("a tick that is just due skipped", "late_skip"))]),
    "C14": ([("4 calls, 5 time steps", T, timer())], [("5 calls, 7 time steps", T, timer(m=5, t=7, ivs="{1,2,3}"))],
            [(w, T, timer(b)) for w, b in (("stop without the mutex", "no_lock_stop"), ("stop without notification", "no_notify"), ("stop does not join", "no_join"),
                                           ("counter kept by start", "keep_missed"), ("callback after stop", "fire_after_stop"))]),
    "C15": ([("2 threads x 3 operations", O, obs())], [("3 threads x 2 operations", O, obs(threads="{1,2,3}", m=2)), ("2 threads x 4 operations", O, obs(m=4))],
            [("equal values notified", O, obs("notify_equal")), ("mutex released before the callback", O, obs("unlock_early")),
             ("mutex kept when the callback throws", O, obs("throw_keeps_lock"))]),
    "C16": ([("periods of 4 and 2 us", L, limiter()), ("periods that are no whole number of us", L, limiter(rates="OddRates"))],
            [("periods of 4 and 2 us, longer", L, limiter(t=14)), ("odd periods, longer", L, limiter(rates="OddRates", t=13))],
            [("late callers do not catch up", L, limiter("reset_if_late", t=13)), ("a point is skipped", L, limiter("skip", t=13)), ("returns early", L, limiter("early"))]),
    "C18": ([("2 types, 2 references, 3 objects", K, locator())], [("3 types, 4 objects", K, locator(n=4, types="{1,2,3}"))],
            [("a second registration replaces the first", K, locator("replace")), ("a registered instance is not shared", K, locator("no_share")),
             ("unregistering removes the object from all types", K, locator("all_types"))]),
    "C19": ([("3 threads, 2 types", G, single())], [("4 threads, 2 types", G, single(threads="{1,2,3,4}")), ("3 threads x 3 requests, 3 types", G, single(m=3, types="{1,2,3}"))],
            [("tested and constructed in two steps", G, single("split")), ("returned while under construction", G, single("early")),
             ("constructed by every thread that arrives in time", G, single("twice"))]),
    "C17": ([("2 requesters, 2 waiters", U, quit_())], [("3 requesters, 2 waiters", U, quit_(req="{1,2,3}")), ("3 operations each", U, quit_(m=3))],
            [("released before the callback", U, quit_("release_first")), ("only waiting threads are released", U, quit_("edge"))]),
}


def run(c):
    if c.prop not in TABLE:
        return
    quick, more, variants = TABLE[c.prop]
    th = vlib.TIER == "thorough"
    jobs = [(m, cf_, label, None) for label, m, cf_ in quick + (more if th else [])] + [(m, cf_, label, "any") for label, m, cf_ in variants]
    with cf.ThreadPoolExecutor(3 if not th else 2) as ex:
        for f in [ex.submit(c.design, m, k, label, workers=3, timeout=600 if not th else 3000, expect_violation=v) for m, k, label, v in jobs]:
            f.result()
    c.assumptions.append("the implementation-level design model that is shown to refine the API specification is a reading of the source; the code itself is bound by the recorded traces")
