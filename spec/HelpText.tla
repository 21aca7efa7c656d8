------------------------------ MODULE HelpText ------------------------------
(* What the parser prints, as lines of words (how the words are laid out is free).  A declaration as in Argparse.tla, *)
(* further with prog, ver and about, about of every argument, and envs, the names of the environment variables.       *)
EXTENDS Argparse

LOCAL White == {32, 9, 11, 12, 13}
RECURSIVE WordsFrom(_, _, _), LinesFrom(_, _, _)
WordsFrom(t, i, cur) ==
  IF i > Len(t) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF t[i] \in White THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o WordsFrom(t, i + 1, <<>>)
  ELSE WordsFrom(t, i + 1, Append(cur, t[i]))
Words(t) == WordsFrom(t, 1, <<>>)
\* the lines of a text that are not blank, as words
NonBlank(x) == IF Words(x) = <<>> THEN <<>> ELSE <<Words(x)>>
LinesFrom(t, i, cur) ==
  IF i > Len(t) THEN NonBlank(cur)
  ELSE IF t[i] = 10 THEN NonBlank(cur) \o LinesFrom(t, i + 1, <<>>)
  ELSE LinesFrom(t, i + 1, Append(cur, t[i]))
Lines(t) == LinesFrom(t, 1, <<>>)

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
SP == <<32>>
DD == <<45, 45>>
\* help and version are flags of every program, declared first
OwnFlags == <<[n |-> Help, s |-> <<104>>, env |-> 0, about |-> <<68, 105, 115, 112, 108, 97, 121, 32, 116, 104, 105, 115, 32, 104, 101, 108, 112, 32, 109, 101, 115, 115, 97, 103, 101>>],
              [n |-> Version, s |-> <<118>>, env |-> 0, about |-> <<68, 105, 115, 112, 108, 97, 121, 32, 112, 114, 111, 103, 114, 97, 109, 32, 118, 101, 114, 115, 105, 111, 110>>]>>
Flags(d) == OwnFlags \o [k \in DOMAIN d.flag |-> [n |-> d.flag[k].n, s |-> d.flag[k].s, env |-> d.flag[k].env, about |-> d.flag[k].about]]
VersionLine(d) == d.prog \o SP \o d.ver
UsageLine(d) == d.prog \o Cat([k \in DOMAIN d.pos |-> <<32, 60>> \o d.pos[k].n \o <<62>>])
                       \o Cat([k \in DOMAIN d.opt |-> <<32, 91>> \o DD \o d.opt[k].n \o <<61, 60, 118, 97, 108, 117, 101, 62, 93>>])
                       \o Cat([k \in DOMAIN Flags(d) |-> <<32, 91>> \o DD \o Flags(d)[k].n \o <<93>>])
Names(a) == IF a.s = <<>> THEN DD \o a.n ELSE <<45>> \o a.s \o <<44, 32>> \o DD \o a.n
EnvNote(d, a) == IF a.env = 0 THEN <<>> ELSE SP \o <<91, 101, 110, 118, 58>> \o d.envs[a.env] \o <<93>>
ArgLine(d, a) == Names(a) \o SP \o a.about \o EnvNote(d, a)
HelpLines(d) == <<VersionLine(d), d.about, <<85, 115, 97, 103, 101, 58>>, UsageLine(d), <<79, 112, 116, 105, 111, 110, 115, 58>>>>
                \o [k \in DOMAIN d.pos |-> d.pos[k].n \o SP \o d.pos[k].about]
                \o [k \in DOMAIN d.opt |-> ArgLine(d, d.opt[k])]
                \o [k \in DOMAIN Flags(d) |-> ArgLine(d, Flags(d)[k])]
RECURSIVE WordLines(_)
WordLines(ls) == IF ls = <<>> THEN <<>> ELSE NonBlank(ls[1]) \o WordLines(Tail(ls))
IsHelp(d, t) == Lines(t) = WordLines(HelpLines(d))
IsVersion(d, t) == Lines(t) = NonBlank(VersionLine(d))
Within(x, t) == \E i \in 0..(Len(t) - Len(x)) : SubSeq(t, i + 1, i + Len(x)) = x
\* standard output and standard error of a parse that ended in state st
Printed(d, st, out, err) ==
  CASE st.shown = "nothing" -> out = <<>> /\ err = <<>>
    [] st.shown = "version" -> IsVersion(d, out) /\ err = <<>>
    [] st.shown = "help" -> IsHelp(d, out) /\ err = <<>>
    [] st.shown = "report" -> IsHelp(d, out) /\ Words(err) # <<>> /\ \A i \in DOMAIN st.names : Within(st.names[i], err)
=============================================================================
