------------------------------------- MODULE Shell -------------------------------------
(* The life of a WinRS shell (C27): created as configured, deleted once, reopened.      *)
(* configuration (strings, "-" not given): id, ins, outs, env = sequence of <<n, v>>,   *)
(*   idle, life, name, prof ("-"/"no": no profile), page, wd; opts = options the caller  *)
(*   hands to open, an object of his that stays as it is                                *)
(* what the server reports on creation (o.srv): id, outs, idle; sel = selectors         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs
VARIABLES s, op, obs

InitOf(c) == [c |-> c, open |-> FALSE, id |-> c.id, idle |-> IF c.idle = "-" THEN "-" ELSE "PT" \o c.idle \o "S", outs |-> c.outs, sel |-> <<>>]
Show(q) == FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE "|") \o x[1] \o "=" \o x[2], "", q)
If(b, x) == IF b THEN <<x>> ELSE <<>>
Create(t, own) == LET c == t.c IN
  <<"Create " \o (IF t.id = "-" THEN "without id" ELSE t.id)>>
  \o If((own /\ c.opts # <<>>) \/ c.prof # "-" \/ c.page # "-", "options " \o Show((IF own THEN c.opts ELSE <<>>) \o (IF c.prof # "-" THEN <<<<"WINRS_NOPROFILE", "TRUE!">>>> ELSE <<>>) \o (IF c.page # "-" THEN <<<<"WINRS_CODEPAGE", c.page>>>> ELSE <<>>)))
  \o If(Len(c.env) > 0, "Environment " \o Show(c.env)) \o If(t.idle # "-", "IdleTimeOut " \o t.idle)
  \o <<"InputStreams " \o c.ins>> \o If(c.life # "-", "Lifetime PT" \o c.life \o "S") \o If(c.name # "-", "Name " \o c.name)
  \o <<"OutputStreams " \o t.outs>> \o If(c.wd # "-", "WorkingDirectory " \o c.wd)
See(t) == <<"opened " \o (IF t.open THEN "yes" ELSE "no"), "id " \o t.id>>
R(r) == IF r = "ok" THEN "ok" ELSE "err:WSManFaultError"
Opened(t, v) == [t EXCEPT !.open = TRUE, !.id = v.id, !.outs = IF v.outs = "-" THEN @ ELSE v.outs, !.idle = IF v.idle = "-" THEN @ ELSE v.idle, !.sel = v.sel]
Closed(t) == [t EXCEPT !.open = FALSE, !.id = "-"]
Cat(ch, n) == FoldLeft(LAMBDA a, x : IF x[1] = n THEN a \o x[2] ELSE a, "", ch)

Step(t, o) ==
  CASE o.n = "open" -> LET u == IF t.open \/ o.r # "ok" THEN t ELSE Opened(t, o.srv) IN
         [s |-> u, obs |-> <<IF t.open THEN "ok" ELSE R(o.r)>> \o (IF t.open THEN <<>> ELSE Create(t, TRUE)) \o If(t.c.opts # <<>>, "own " \o Show(t.c.opts)) \o See(u)]
    [] o.n = "close" -> LET u == IF ~t.open \/ o.r # "ok" THEN t ELSE Closed(t) IN
         [s |-> u, obs |-> <<IF ~t.open THEN "ok" ELSE R(o.r)>> \o If(t.open, "Delete " \o Show(t.sel)) \o See(u)]
    \* a with block: opens, runs the body, closes; the error of the body reaches the caller
    [] o.n = "with" -> LET a == IF t.open THEN t ELSE Opened(t, o.srv)
                           u == Closed(a) IN
         [s |-> u, obs |-> <<IF o.body = "raises" THEN "err:KeyboardProblem" ELSE "ok">> \o (IF t.open THEN <<>> ELSE Create(t, FALSE)) \o <<"Delete " \o Show(a.sel)>> \o See(u)]
    [] o.n = "receive" ->
         [s |-> t, obs |-> <<R(o.r), "Receive " \o o.want[1] \o (IF Len(o.want) > 1 THEN " " \o o.want[2] ELSE "") \o " " \o o.cmd \o " " \o Show(t.sel)>>
            \o (IF o.r = "ok" THEN <<"state " \o o.st, "rc " \o o.rc>> \o [i \in 1..Len(o.want) |-> o.want[i] \o " " \o Cat(o.ch, o.want[i])] ELSE <<>>) \o See(t)]
    [] o.n = "send" -> [s |-> t, obs |-> <<R(o.r), "Send " \o o.stream \o " " \o o.cmd \o " " \o o.end \o " " \o o.d \o " " \o Show(t.sel)>> \o See(t)]

Srv == {[id |-> "S1", outs |-> "-", idle |-> "-", sel |-> <<<<"ShellId", "S1">>>>], [id |-> "S2", outs |-> "stdout", idle |-> "P1DT2H0M0.000S", sel |-> <<<<"ShellId", "S2">>, <<"X", "y">>>>],
        [id |-> "S3", outs |-> "-", idle |-> "-", sel |-> <<>>]}
Ops == [n : {"open"}, r : {"ok", "fault"}, srv : Srv] \cup [n : {"close"}, r : {"ok", "fault"}] \cup [n : {"with"}, body : {"ok", "raises"}, srv : Srv]
  \cup [n : {"receive"}, r : {"ok", "fault"}, want : {<<"stdout", "stderr">>, <<"pr">>}, cmd : {"-", "C1"}, st : {"none", "Done"}, rc : {"-", "4"}, ch : {<<>>, <<<<"pr", "a">>, <<"pr", "b">>>>, <<<<"stderr", "b">>, <<"stdout", "a">>, <<"stderr", "a">>>>}]
  \cup [n : {"send"}, r : {"ok", "fault"}, stream : {"stdin", "pr"}, cmd : {"-", "C1"}, end : {"-", "True", "False"}, d : {"", "ab"}]
\* a server that names no selectors never does
Useful(t, o) == /\ (o.n \in {"open", "with"} /\ o.srv.sel = <<>>) => t.sel = <<>>
                /\ o.n \in {"receive", "send"} => t.open
                /\ o.n = "receive" => \A i \in 1..Len(o.ch) : \E j \in 1..Len(o.want) : o.want[j] = o.ch[i][1]
                /\ o.n = "receive" => (o.rc # "-" => o.st = "Done") /\ (o.r = "fault" => o.ch = <<>> /\ o.st = "none")
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
Has(q, p) == \E i \in 1..Len(q) : Len(q[i]) >= Len(p) /\ SubSeq(q[i], 1, Len(p)) = p
CreatedOnlyIfClosed == [][Has(obs', "Create") => ~s.open]_vars
DeletedOnlyIfCreated == [][Has(obs', "Delete") => s.open \/ Has(obs', "Create")]_vars
FailureKeeps == [][obs'[1] = "err:WSManFaultError" => s' = s]_vars
==========================================================================================
