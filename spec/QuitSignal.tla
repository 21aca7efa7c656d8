---------------------------- MODULE QuitSignal ----------------------------
(* Abstract specification of install_signal_handlers / quit / wait_for_quit. *)
(* Every quit call and every delivered signal runs the installed callback    *)
(* (if there is one) once and then releases one wait_for_quit; a release     *)
(* nobody waits for is kept (several of them at least as one).               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cbk, tokens, reqs, waits, inst
pvars == <<cbk, tokens, reqs, waits, inst>>
\* reqs: thread -> [st, msg, sig] quit requests in progress; waits: thread -> TRUE once released

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PInit == cbk = 0 /\ tokens = 0 /\ reqs = Empty /\ waits = Empty /\ inst = FALSE

Name(s) == CASE s = 2 -> "SIGINT" [] s = 6 -> "SIGABRT" [] s = 15 -> "SIGTERM"

\* k = 0: an empty callback
Install(k) == reqs = Empty /\ cbk' = k /\ inst' = TRUE /\ UNCHANGED <<tokens, reqs, waits>>
Request(t, msg, sig) ==
  /\ t \notin DOMAIN reqs
  /\ reqs' = reqs @@ (t :> [st |-> IF cbk = 0 THEN "release" ELSE "notify", msg |-> msg, sig |-> sig])
  /\ UNCHANGED <<cbk, tokens, waits, inst>>
Quit(t, msg, sig) == Request(t, msg, sig)
Signal(t, sig) == inst /\ Request(t, Name(sig), sig)
Begin(t, k, msg, sig) ==
  /\ t \in DOMAIN reqs /\ reqs[t] = [st |-> "notify", msg |-> msg, sig |-> sig] /\ k = cbk
  /\ reqs' = [reqs EXCEPT ![t].st = "in"]
  /\ UNCHANGED <<cbk, tokens, waits, inst>>
End(t) ==
  /\ t \in DOMAIN reqs /\ reqs[t].st = "in"
  /\ reqs' = [reqs EXCEPT ![t].st = "release"]
  /\ UNCHANGED <<cbk, tokens, waits, inst>>
Release(t) ==
  /\ t \in DOMAIN reqs /\ reqs[t].st = "release"
  /\ tokens' \in {tokens + 1, IF tokens > 0 THEN tokens ELSE 1}
  /\ reqs' = [reqs EXCEPT ![t].st = "done"]
  /\ UNCHANGED <<cbk, waits, inst>>
Done(t) == /\ t \in DOMAIN reqs /\ reqs[t].st = "done" /\ reqs' = Drop(reqs, t)
           /\ UNCHANGED <<cbk, tokens, waits, inst>>
Wait(t) == t \notin DOMAIN waits /\ waits' = waits @@ (t :> FALSE) /\ UNCHANGED <<cbk, tokens, reqs, inst>>
Acquire(t) == /\ t \in DOMAIN waits /\ ~waits[t] /\ tokens > 0
              /\ tokens' = tokens - 1 /\ waits' = [waits EXCEPT ![t] = TRUE]
              /\ UNCHANGED <<cbk, reqs, inst>>
Waited(t) == t \in DOMAIN waits /\ waits[t] /\ waits' = Drop(waits, t) /\ UNCHANGED <<cbk, tokens, reqs, inst>>
Internal == (\E t \in DOMAIN reqs : Release(t)) \/ (\E t \in DOMAIN waits : Acquire(t))
\* nobody can move: no release is pending while somebody waits for it
Quiet == /\ \A t \in DOMAIN waits : ~waits[t] /\ tokens = 0
         /\ \A t \in DOMAIN reqs : reqs[t].st = "in"
TypeInv == /\ tokens >= 0
           /\ \A t \in DOMAIN reqs : reqs[t].st \in {"notify", "in", "release", "done"}
=============================================================================
