---------------------------- MODULE ArgparseModel ----------------------------
(* Model checking of the parser machine itself: for all short command lines over a set of telling tokens, all values of the
   environment and both kinds of option, what the machine comes to is compared with a definition that does not consume tokens:
   every token has a role, the first token that stops the parse decides, and otherwise the last mention of a name counts. *)
EXTENDS Argparse
CONSTANT N

a == 97
f == 102
five == 53
bad == 120
Tokens == { <<Dash, Dash, a, Equals, five>>, <<Dash, a, Equals, bad>>, <<Dash, Dash, a, Equals>>, <<Dash, Dash, a>>, <<Dash, a>>,
            <<Dash, f>>, <<Dash, Dash, f, Equals, bad>>, <<five>>, <<bad>>, <<>>, <<Dash>>, <<Dash, Dash>>, <<Dash, 113>>,
            <<Dash, Dash>> \o Help, <<Dash, 118>>, <<54>> }
Decls == { [pos |-> p, opt |-> <<[n |-> <<a>>, s |-> <<>>, t |-> "int", d |-> 7, req |-> q, env |-> 1, val |-> v]>>,
            flag |-> <<[n |-> <<f>>, s |-> <<>>, env |-> 2, d |-> 0]>>] :
           p \in {<<>>, <<[n |-> <<112>>, t |-> "int", d |-> 0]>>}, q \in {0, 1}, v \in {"none", "positive"} }
Envs == { <<x, y>> : x \in {<<>>, <<<<54>>>>, <<<<bad>>>>, <<<<>>>>}, y \in {<<>>, <<<<five>>>>} }

VARIABLES d, env, toks
vars == <<d, env, toks>>
Init == d \in Decls /\ env \in Envs /\ toks = <<>>
Next == Len(toks) < N /\ \E t \in Tokens : toks' = Append(toks, t) /\ UNCHANGED <<d, env>>
Spec == Init /\ [][Next]_vars

Out == Parse(d, env, toks)
Named(t) == t # <<>> /\ t[1] = Dash
\* the text that a token gives to the name it mentions
Own(t) == Text(Body(t))
IsOpt(t) == Named(t) /\ Key(Body(t)) = <<a>>
\* a token is a value exactly if the one before it is an option without text of its own that is not a value itself
RECURSIVE IsValue(_)
IsValue(i) == IF i = 1 THEN FALSE ELSE IsOpt(toks[i - 1]) /\ Own(toks[i - 1]) = <<>> /\ ~IsValue(i - 1)
Role(i) == LET t == toks[i]  k == Key(Body(t)) IN
  IF IsValue(i) THEN "value" ELSE IF ~Named(t) THEN "pos"
  ELSE IF k = Help \/ k = <<104>> THEN "help" ELSE IF k = Version \/ k = <<118>> THEN "version"
  ELSE IF k = <<a>> THEN "opt" ELSE IF k = <<f>> THEN "flag" ELSE "unknown"
Places(r) == {i \in DOMAIN toks : Role(i) = r}
Ok(x) == LET c == Convert("int", x) IN c.ok /\ Valid(d.opt[1].val, c.v)
\* the text an option at i is given: a set with one element, or none
Given(i) == IF Own(toks[i]) # <<>> THEN {Own(toks[i])} ELSE IF i < Len(toks) THEN {toks[i + 1]} ELSE {}
\* the places at which parsing ends
Wrong == Places("unknown") \cup {i \in Places("opt") : \A x \in Given(i) : ~Ok(x)}
         \cup {i \in Places("pos") : Cardinality({j \in Places("pos") : j < i}) >= Len(d.pos) \/ ~Convert("int", toks[i]).ok}
Asks == Places("help") \cup Places("version")
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
EnvBad == env[1] # <<>> /\ (IF env[1] # <<>> THEN ~Ok(env[1][1]) ELSE FALSE)
Complete == /\ Cardinality(Places("pos")) = Len(d.pos)
            /\ d.opt[1].req = 1 => Places("opt") # {} \/ env[1] # <<>>
Outcome == IF EnvBad THEN "error"
           ELSE IF Wrong \cup Asks # {} THEN IF First(Wrong \cup Asks) \in Asks THEN "quit" ELSE "error"
           ELSE IF Complete THEN "success" ELSE "error"
\* the values after a successful parse: command line before environment before default
IntOf(x) == Convert("int", x).v
Chosen == IF Places("opt") # {} THEN {IntOf(x) : x \in Given(Last(Places("opt")))} ELSE IF env[1] # <<>> THEN {IntOf(env[1][1])} ELSE {d.opt[1].d}

Decided == Out.r = Outcome
Values == Out.r = "success" =>
  /\ Out.opt[1] \in Chosen
  /\ (Out.flag[1] = 1) <=> (Places("flag") # {} \/ env[2] # <<>>)
  /\ \A i \in Places("pos") : Out.pos[Cardinality({j \in Places("pos") : j <= i})] = IntOf(toks[i])
\* whatever the outcome: a variable holds its default or the value of some text it was given, and every report has a subject
Untouched == /\ Out.opt[1] \in {d.opt[1].d} \cup {IntOf(x) : x \in {y \in UNION {Given(i) : i \in Places("opt")} \cup (IF env[1] = <<>> THEN {} ELSE {env[1][1]}) : Ok(y)}}
             /\ (Out.r = "error") <=> (Out.shown = "report")
             /\ (Out.r = "quit") <=> (Out.shown \in {"help", "version"})
\* what stopped the parse is not affected by tokens that follow, unless the last token waits for its value
Stopped == [][(Out.r = "quit") => Parse(d, env, toks').r = "quit"]_vars
=============================================================================
