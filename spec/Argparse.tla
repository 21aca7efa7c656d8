------------------------------ MODULE Argparse ------------------------------
(* The command line parser as a machine that consumes tokens.                *)
(* Declaration: [pos |-> seq of [n, t], opt |-> seq of [n, s, t, d, req,     *)
(* env, val], flag |-> seq of [n, s, env, d]]; names and tokens are          *)
(* sequences of character codes, a missing short name is <<>>, env is the    *)
(* number of the environment variable (0: none), val names the validator.    *)
(* Environment: sequence of <<>> (not set) or <<text>>.                      *)
EXTENDS TextConv

Dash == 45
Equals == 61
\* the name a token starting with a dash refers to, and the text after '='
Body(t) == IF Len(t) > 2 /\ t[2] = Dash /\ t[3] # Dash THEN Rest(t, 3)
           ELSE IF Len(t) > 1 /\ t[2] # Dash THEN Rest(t, 2) ELSE <<>>
EqPos(b) == LET c == {i \in 1..Len(b) : b[i] = Equals} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Key(b) == IF EqPos(b) = 0 THEN b ELSE SubSeq(b, 1, EqPos(b) - 1)
Text(b) == IF EqPos(b) = 0 THEN <<>> ELSE Rest(b, EqPos(b) + 1)
Help == <<104, 101, 108, 112>>
Version == <<118, 101, 114, 115, 105, 111, 110>>

\* the argument a name refers to (0: none)
Find(args, k) ==
  LET c == {i \in DOMAIN args : k # <<>> /\ (args[i].n = k \/ args[i].s = k)} IN
  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

Valid(v, x) == CASE v = "none" -> TRUE
               [] v \in {"positive", "throws", "throws_int"} -> x > 0 /\ x \notin {NegInf, NaN, NegHuge}   \* (the latter two validators throw otherwise)
               [] v = "nonempty" -> x # <<>>
               [] v = "short" -> Len(x) <= 2

\* state: next token, next positional, values, which options were given, outcome ("run" while parsing)
Start(d) == [i |-> 1, p |-> 1, pos |-> [k \in DOMAIN d.pos |-> d.pos[k].d], opt |-> [k \in DOMAIN d.opt |-> d.opt[k].d],
             flag |-> [k \in DOMAIN d.flag |-> d.flag[k].d], given |-> {}, r |-> "run", shown |-> "nothing", names |-> <<>>]
\* an error: the report is about the arguments named
Fail(st, names) == [st EXCEPT !.r = "error", !.shown = "report", !.names = names]
Quit(st, what) == [st EXCEPT !.r = "quit", !.shown = what]
SetOpt(d, st, k, text) ==
  LET c == Convert(d.opt[k].t, text) IN
  IF ~c.ok THEN Fail(st, <<d.opt[k].n>>)
  ELSE IF ~Valid(d.opt[k].val, c.v) THEN Fail(st, IF d.opt[k].val \in {"throws", "throws_int"} THEN <<>> ELSE <<d.opt[k].n>>)  \* (what a validator throws is its own)
  ELSE [st EXCEPT !.opt[k] = c.v, !.given = @ \cup {k}]
SetFlag(st, k) == [st EXCEPT !.flag[k] = 1]

\* first the environment: options, then flags
RECURSIVE EnvOpts(_, _, _, _), EnvFlags(_, _, _, _)
EnvOpts(d, env, st, k) ==
  IF k > Len(d.opt) \/ st.r # "run" THEN st
  ELSE LET e == d.opt[k].env IN
       EnvOpts(d, env, IF e = 0 THEN st ELSE IF env[e] = <<>> THEN st ELSE SetOpt(d, st, k, env[e][1]), k + 1)
EnvFlags(d, env, st, k) ==
  IF k > Len(d.flag) \/ st.r # "run" THEN st
  ELSE LET e == d.flag[k].env IN
       EnvFlags(d, env, IF e = 0 THEN st ELSE IF env[e] = <<>> THEN st ELSE SetFlag(st, k), k + 1)

\* one step: the token at position i is consumed (an option may consume the next one too)
Consume(d, toks, st) ==
  LET t == toks[st.i] IN
  IF t # <<>> /\ t[1] = Dash
  THEN LET b == Body(t)  k == Key(b)  v == Text(b)  o == Find(d.opt, k)  f == Find(d.flag, k) IN
       IF k \in {Help, <<104>>} THEN Quit(st, "help")
       ELSE IF k \in {Version, <<118>>} THEN Quit(st, "version")
       ELSE IF o # 0
            THEN IF v # <<>> THEN SetOpt(d, [st EXCEPT !.i = @ + 1], o, v)
                 ELSE IF st.i < Len(toks) THEN SetOpt(d, [st EXCEPT !.i = @ + 2], o, toks[st.i + 1])
                 ELSE Fail(st, <<k>>)
       ELSE IF f # 0 THEN SetFlag([st EXCEPT !.i = @ + 1], f)
       ELSE Fail(st, <<k>>)
  ELSE IF st.p <= Len(d.pos)
       THEN LET c == Convert(d.pos[st.p].t, t) IN
            IF c.ok THEN [st EXCEPT !.pos[st.p] = c.v, !.p = @ + 1, !.i = @ + 1] ELSE Fail(st, <<d.pos[st.p].n>>)
       ELSE Fail(st, <<t>>)
\* at the end everything required must have been given
MissingPos(d, st) == [j \in 1..(Len(d.pos) - st.p + 1) |-> d.pos[st.p + j - 1].n]
RECURSIVE MissingOpt(_, _, _)
MissingOpt(d, st, k) == IF k > Len(d.opt) THEN <<>>
                        ELSE (IF d.opt[k].req = 1 /\ k \notin st.given THEN <<d.opt[k].n>> ELSE <<>>) \o MissingOpt(d, st, k + 1)
Finish(d, st) ==
  IF st.p <= Len(d.pos) THEN Fail(st, MissingPos(d, st))
  ELSE IF MissingOpt(d, st, 1) # <<>> THEN Fail(st, MissingOpt(d, st, 1))
  ELSE [st EXCEPT !.r = "success"]
RECURSIVE Run(_, _, _)
Run(d, toks, st) ==
  IF st.r # "run" THEN st
  ELSE IF st.i > Len(toks) THEN Finish(d, st)
  ELSE Run(d, toks, Consume(d, toks, st))
\* what trying the value of option k in the environment comes to, and the options for which that is an error
EnvTry(d, env, k) == SetOpt(d, Start(d), k, env[d.opt[k].env][1])
InEnv(args, env, k) == IF args[k].env = 0 THEN FALSE ELSE env[args[k].env] # <<>>
EnvFails(d, env) == {k \in DOMAIN d.opt : IF InEnv(d.opt, env, k) THEN EnvTry(d, env, k).r = "error" ELSE FALSE}
\* after such an error nothing is said about the order in which the other values of the environment were taken
EnvLeft(d, env, pos, opt, flag) ==
  LET bad == EnvFails(d, env) IN
  /\ pos = Start(d).pos /\ DOMAIN opt = DOMAIN d.opt /\ DOMAIN flag = DOMAIN d.flag
  /\ \A k \in DOMAIN d.opt : \/ opt[k] = d.opt[k].d
                             \/ IF k \notin bad /\ InEnv(d.opt, env, k) THEN opt[k] = EnvTry(d, env, k).opt[k] ELSE FALSE
  /\ \A k \in DOMAIN d.flag : flag[k] = d.flag[k].d \/ (flag[k] = 1 /\ InEnv(d.flag, env, k))
Parse(d, env, toks) == Run(d, toks, EnvFlags(d, env, EnvOpts(d, env, Start(d), 1), 1))
=============================================================================
