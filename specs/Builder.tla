------------------------------------- MODULE Builder -------------------------------------
(* Building a pipeline and sending it (C20).                                              *)
(* cfg: proto negotiated version ("2.1"/"2.2"/"2.3"), apart apartment state of the pool     *)
(*   (0..2), nested: the builder is a nested PowerShell                                    *)
(* operations: cmdlet, script (text, scope "-"/"true"/"false"), command (a Command object:  *)
(*   text, script, scope, eos, m the streams it merges as <<which, to>>, prev, args as      *)
(*   <<name or "-", value>>), arg (v), param (name, v), params (list of <<name, v>>),     *)
(*   statement, merge (which, to), previous (on), reset, clear, invoke (hist, apart -1: not   *)
(*   given, redirect, stream -1: not given, text: history string or "-")                    *)
(* A value v is its typed form; the drivers know the value it stands for.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs, Texts, Scopes, Names, Vals, Whiches, Tos, MaxCmds, MaxArgs, Invokes, Kinds
VARIABLES s, op, obs

InitOf(c) == [c |-> c, cmds |-> <<>>]
Streams == <<"error", "warning", "verbose", "debug", "information">>
New(text, script, scope, eos) == [text |-> text, script |-> script, scope |-> scope, eos |-> eos, args |-> <<>>, prev |-> "none",
                                  m |-> [error |-> "none", warning |-> "none", verbose |-> "none", debug |-> "none", information |-> "none"]]
Merged(c, m) == FoldLeft(LAMBDA a, x : [a EXCEPT !.m[x[1]] = x[2]], c, m)
\* versions are compared number by number: 2.10 is newer than 2.3
Supported(p, w) == IF w = "error" THEN TRUE ELSE IF w = "information" THEN p \in {"2.3", "2.10"} ELSE p \in {"2.2", "2.3", "2.10"}
Targets(w) == IF w = "error" THEN {"none", "output"} ELSE {"none", "output", "null"}
Code == [none |-> "0 None", output |-> "1 Output", null |-> "8 Null"]
Join(q, sep) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o sep \o x, "", q)
ShowCmd(p, c) ==
  (IF c.script THEN "script " ELSE "command ") \o c.text \o " scope " \o c.scope
  \o " args(" \o Join([i \in 1..Len(c.args) |-> c.args[i][1] \o "=" \o c.args[i][2]], ";") \o ")"
  \o " my " \o (IF c.m.error = "none" THEN "0 None" ELSE "2 Error") \o " to " \o Code[c.m.error]
  \o " previous " \o (IF c.prev = "both" THEN "3 Output, Error" ELSE "0 None")
  \o Join([i \in 1..5 |-> IF p = "2.1" \/ ~Supported(p, Streams[i]) THEN "" ELSE " " \o Streams[i] \o " " \o Code[c.m[Streams[i]]]], "")
\* the commands from i to the end of their statement
RECURSIVE Statements(_, _, _)
Statements(p, q, cur) ==
  IF q = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET n == Append(cur, ShowCmd(p, q[1])) IN
       IF q[1].eos THEN <<n>> \o Statements(p, Tail(q), <<>>) ELSE Statements(p, Tail(q), n)
OnLast(t, F(_)) == [t EXCEPT !.cmds[Len(t.cmds)] = F(t.cmds[Len(t.cmds)])]
Ok(t) == [s |-> t, obs |-> <<"ok">>]
Refused(t) == [s |-> t, obs |-> <<"refused">>]
\* merging everything only concerns the streams the version knows
MergeAll(c, p, to) == [c EXCEPT !.m = [w \in {"error", "warning", "verbose", "debug", "information"} |-> IF Supported(p, w) THEN to ELSE c.m[w]]]
B(x) == IF x THEN "true" ELSE "false"

Step(t, o) == LET p == t.c.proto IN
  CASE o.n = "cmdlet" -> Ok([t EXCEPT !.cmds = Append(@, New(o.text, FALSE, o.scope, FALSE))])
    [] o.n = "script" -> Ok([t EXCEPT !.cmds = Append(@, New(o.text, TRUE, o.scope, FALSE))])
    [] o.n = "command" -> Ok([t EXCEPT !.cmds = Append(@, [Merged(New(o.text, o.script, o.scope, o.eos), o.m) EXCEPT !.prev = IF o.prev THEN "both" ELSE "none", !.args = o.args])])
    [] o.n = "arg" -> Ok(OnLast(t, LAMBDA c : [c EXCEPT !.args = Append(@, <<"-", o.v>>)]))
    [] o.n = "param" -> Ok(OnLast(t, LAMBDA c : [c EXCEPT !.args = Append(@, <<o.name, o.v>>)]))
    [] o.n = "params" -> Ok(OnLast(t, LAMBDA c : [c EXCEPT !.args = @ \o o.list]))
    [] o.n = "statement" -> Ok(OnLast(t, LAMBDA c : [c EXCEPT !.eos = TRUE]))
    [] o.n = "merge" -> IF o.which = "all" THEN (IF o.to \notin Targets("error") THEN Refused(t) ELSE Ok(OnLast(t, LAMBDA c : MergeAll(c, p, o.to))))
                        ELSE IF o.to \notin Targets(o.which) \/ ~Supported(p, o.which) THEN Refused(t)
                        ELSE Ok(OnLast(t, LAMBDA c : [c EXCEPT !.m[o.which] = o.to]))
    [] o.n = "previous" -> Ok(OnLast(t, LAMBDA c : [c EXCEPT !.prev = IF o.on THEN "both" ELSE "none"]))
    [] o.n = "reset" -> Ok(OnLast(t, LAMBDA c : [MergeAll(c, p, "none") EXCEPT !.prev = "none"]))
    [] o.n = "clear" -> Ok([t EXCEPT !.cmds = <<>>])
    [] o.n = "invoke" ->
         IF t.cmds = <<>> THEN Refused(t)
         ELSE LET ss == Statements(p, t.cmds, <<>>) IN
              [s |-> t, obs |-> <<"ok", "history " \o B(o.hist) \o " apartment " \o ToString(IF o.apart = -1 THEN t.c.apart ELSE o.apart) \o " redirect " \o B(o.redirect)
                                  \o " stream " \o ToString(IF o.stream = -1 THEN 15 ELSE o.stream) \o " nested " \o B(t.c.nested) \o " as " \o o.text>>
                                  \o [i \in 1..Len(ss) |-> Join(ss[i], " | ")]]

Ops(t) ==
  LET room == Len(t.cmds) < MaxCmds has == t.cmds # <<>> IN
  (IF room THEN {[n |-> k, text |-> x, scope |-> y] : k \in Kinds \cap {"cmdlet", "script"}, x \in Texts, y \in Scopes} ELSE {})
  \cup (IF room /\ "command" \in Kinds THEN {[n |-> "command", text |-> x, script |-> b, scope |-> y, eos |-> e, m |-> <<>>, prev |-> FALSE, args |-> <<>>] : x \in Texts, b \in BOOLEAN, y \in Scopes, e \in BOOLEAN} ELSE {})
  \cup (IF has THEN
          (IF Len(t.cmds[Len(t.cmds)].args) < MaxArgs THEN {[n |-> "arg", v |-> v] : v \in Vals} \cup {[n |-> "param", name |-> k, v |-> v] : k \in Names, v \in Vals} ELSE {})
          \cup (IF "statement" \in Kinds THEN {[n |-> "statement"]} ELSE {})
          \cup {[n |-> "merge", which |-> w, to |-> x] : w \in Whiches, x \in Tos}
          \cup (IF Whiches # {} THEN {[n |-> "reset"]} \cup {[n |-> "previous", on |-> b] : b \in BOOLEAN} ELSE {})
        ELSE {})
  \cup (IF room /\ "merging" \in Kinds THEN {[n |-> "command", text |-> "x", script |-> FALSE, scope |-> "-", eos |-> FALSE, m |-> IF w = "-" THEN <<>> ELSE <<<<w, x>>>>, prev |-> b, args |-> <<>>] :
                                              w \in {"-", "error", "warning", "verbose", "debug", "information"}, x \in {"output"}, b \in BOOLEAN} ELSE {})
  \cup {[n |-> "clear"]} \cup Invokes
Useful(t, o) == o.n \in {"cmdlet", "script", "command", "clear", "invoke"} \/ t.cmds # <<>>
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops(s) : LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
\* what is refused changes nothing, and so does sending
RefusedIsNothing == [][obs'[1] = "refused" \/ op'.n = "invoke" => s' = s]_vars
\* building only ever touches the last command
OthersStay == [][op'.n # "clear" => \A i \in 1..(Len(s.cmds) - 1) : s'.cmds[i] = s.cmds[i]]_vars
\* every command is sent in exactly one statement
Plus(a, b) == a + b
AllSent == [][op'.n = "invoke" /\ s.cmds # <<>> => Len(obs') - 2 = Len(SelectSeq(s.cmds, LAMBDA c : c.eos)) + (IF s.cmds[Len(s.cmds)].eos THEN 0 ELSE 1)]_vars
==========================================================================================
