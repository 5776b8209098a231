----------------------------------- MODULE Metadata ------------------------------------
(* Asking a pool for the metadata of its commands (C28).                                 *)
(* operations: query - names (as a list, or one: a single string), ct the types asked    *)
(*   for (-1: default), ns and args ("none" or "given" in hasns/hasargs), and what the    *)
(*   server answers: r = "ok" with cmds, "fault" (refuses the request), "failed" (the     *)
(*   pipeline fails before any output);  script - starts another pipeline;  poll - that   *)
(*   pipeline gets an output;  disconnect, connect, close                                 *)
(* a command: name, ns, uri, type (flags, -1 none), outs, hasps, ps = sequence of         *)
(*   [key, type, aliases, sw, dyn];  "-" stands for a missing text                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, CommandTypes
CONSTANTS Cmds, MaxOut
VARIABLES s, op, obs

InitOf(c) == [pool |-> "opened", outs |-> <<>>, started |-> FALSE]
Join(q) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "|" \o x, q[1], Tail(q))
Yes(b) == IF b THEN "T" ELSE "F"
Param(p) == p.key \o " is " \o p.name \o " of " \o p.type \o " [" \o Join(p.aliases) \o "] switch " \o Yes(p.sw) \o " dynamic " \o Yes(p.dyn)
Cmd(c) == "command " \o c.name \o " in " \o c.ns \o " help " \o c.uri \o " type " \o (IF c.type = -1 THEN "-" ELSE ToString(c.type) \o " " \o TypeText(c.type))
          \o " gives [" \o Join(c.outs) \o "] takes " \o (IF c.hasps THEN "{" \o Join([i \in DOMAIN c.ps |-> Param(c.ps[i])]) \o "}" ELSE "-")
Asked(o) == "asked for [" \o Join(o.names) \o "] types " \o ToString(IF o.ct = -1 THEN 511 ELSE o.ct) \o " namespaces " \o (IF o.hasns THEN "[" \o Join(o.ns) \o "]" ELSE "-")
            \o " arguments " \o (IF o.hasargs THEN "[" \o Join(o.args) \o "]" ELSE "-")
Tail2(t) == <<"pool " \o t.pool, "other pipeline " \o (IF t.started THEN "[" \o Join(t.outs) \o "]" ELSE "-")>>

Step(t, o) ==
  CASE o.n = "query" -> [s |-> t, obs |->
         (IF t.pool # "opened" THEN <<"err:InvalidRunspacePoolStateError">>
          ELSE <<CASE o.r = "ok" -> "ok" [] o.r = "fault" -> "err:WSManFaultError" [] OTHER -> "err", Asked(o)>>
               \o (IF o.r = "ok" THEN [i \in DOMAIN o.cmds |-> Cmd(o.cmds[i])] ELSE <<>>)) \o Tail2(t)]
    [] o.n = "script" -> LET u == [t EXCEPT !.started = TRUE] IN [s |-> u, obs |-> <<"ok">> \o Tail2(u)]
    [] o.n = "poll" -> LET u == [t EXCEPT !.outs = Append(@, o.v)] IN [s |-> u, obs |-> <<"ok">> \o Tail2(u)]
    [] o.n = "disconnect" -> LET u == [t EXCEPT !.pool = "disconnected"] IN [s |-> u, obs |-> <<"ok">> \o Tail2(u)]
    [] o.n = "connect" -> LET u == [t EXCEPT !.pool = "opened"] IN [s |-> u, obs |-> <<"ok">> \o Tail2(u)]
    [] o.n = "close" -> LET u == [t EXCEPT !.pool = "closed"] IN [s |-> u, obs |-> <<"ok">> \o Tail2(u)]

Useful(t, o) == CASE o.n = "query" -> o.one => Len(o.names) = 1
                  [] o.n = "script" -> t.pool = "opened" /\ ~t.started
                  [] o.n = "poll" -> t.pool = "opened" /\ t.started
                  [] o.n = "disconnect" -> t.pool = "opened" /\ ~t.started
                  [] o.n = "connect" -> t.pool = "disconnected"
                  [] o.n = "close" -> t.pool = "opened"
Q == [n |-> "query", names |-> <<"Get-*">>, one |-> TRUE, ct |-> -1, hasns |-> FALSE, ns |-> <<>>, hasargs |-> FALSE, args |-> <<>>, r |-> "ok", cmds |-> <<>>]
Ops == {[Q EXCEPT !.names = x, !.one = b, !.ct = c, !.cmds = m] : x \in {<<"Get-*">>, <<"a", "b">>, <<>>}, b \in BOOLEAN, c \in {-1, 2, 511}, m \in UNION {[1..k -> Cmds] : k \in 0..2}}
  \cup {[Q EXCEPT !.hasns = TRUE, !.ns = x, !.hasargs = b, !.args = y, !.r = r] : x \in {<<>>, <<"n1", "n2">>}, b \in BOOLEAN, y \in {<<>>, <<"S:x", "I32:1">>}, r \in {"ok", "fault", "failed"}}
  \cup {[n |-> "script"], [n |-> "disconnect"], [n |-> "connect"], [n |-> "close"]} \cup [n : {"poll"}, v : {"S:o"}]
Init == s = InitOf([pool |-> "opened"]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
Bound == Len(s.outs) <= MaxOut
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
Sent == \E i \in 1..Len(obs') : Len(obs'[i]) > 5 /\ SubSeq(obs'[i], 1, 5) = "asked"
AsksOnlyOpened == [][op'.n = "query" => (Sent <=> s.pool = "opened")]_vars
EachReported == [][op'.n = "query" /\ obs'[1] = "ok" => Len(obs') = 4 + Len(op'.cmds)]_vars
QueriesChangeNothing == [][op'.n = "query" => s' = s]_vars
=========================================================================================
