------------------------------------- MODULE Convenience -------------------------------------
(* The convenience calls of a client (C25), as seen by the server and the caller: a     *)
(* monitor that accepts or rejects every request and every result.                      *)
(* o.n = "call": o.k cmd/ps/copy/fetch, o.text, o.env (<<name, value>>s), o.conf and  *)
(*   what the server will report: o.rep = [out, err, rc, end, streams]                   *)
(*   out/err/rc: letters of a process ("-" no code), or the lines of a pipeline           *)
(* requests: create, setup (opening of a pool), command, input, receive, signal, delete, *)
(*   o.r = ok, optimeout (nothing yet), or the error the caller has to see                *)
(*   o.sel: addressed to the shell that was created                                      *)
(* return: o.res, what the caller got                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxEv
VARIABLES s, op, obs

InitOf(c) == [at |-> "idle", k |-> "-", want |-> "", env |-> "", conf |-> "", rep |-> [out |-> <<>>, err |-> "", rc |-> "", end |-> "", streams |-> ""], shell |-> FALSE, del |-> 0, ran |-> FALSE, fail |-> "-", got |-> FALSE]
Good(t) == [s |-> t, obs |-> <<"accepted">>]
Bad(t, why) == [s |-> [t EXCEPT !.at = "rejected"], obs |-> <<"rejected: " \o why>>]
Cat(q, sep) == FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN sep ELSE "") \o q[i], "", [i \in 1..Len(q) |-> i])
Pairs(q) == Cat([i \in 1..Len(q) |-> q[i][1] \o "=" \o q[i][2]], " ")
\* what has to be run remotely
Statement(e) == "New-Item(Path=env:;Name=" \o e[1] \o ";Value=" \o e[2] \o ";Force=true) Out-Null() / "
What(o) == IF o.k = "cmd" THEN "process " \o o.text
           ELSE IF o.k = "ps" THEN Cat([i \in 1..Len(o.env) |-> Statement(o.env[i])], "") \o "Invoke-Expression(Command=" \o o.text \o ") Out-String(Stream)"
           ELSE o.k \o " script"
Result(t) == IF t.k = "cmd" THEN "stdout " \o Cat(t.rep.out, "") \o " stderr " \o t.rep.err \o " code " \o (IF t.rep.rc = "-" THEN "-1" ELSE t.rep.rc)
             ELSE IF t.k = "ps" THEN "output " \o Cat(t.rep.out, "/") \o " errors " \o (IF t.rep.end = "Failed" THEN "yes" ELSE "no") \o " streams " \o t.rep.streams
             ELSE "done"
Expected(t) == IF t.fail # "-" THEN "err:" \o t.fail
               ELSE IF t.k \in {"copy", "fetch"} /\ t.rep.end = "Failed" THEN "err:WinRMError"
               ELSE Result(t)
Failed(t, r) == IF r \in {"ok", "optimeout"} THEN t ELSE [t EXCEPT !.fail = r]
Req(t, o) ==
  IF t.at # "calling" THEN Bad(t, "a request outside of a call")
  ELSE IF o.n = "create" THEN
    IF o.conf # t.conf THEN Bad(t, "not the configuration asked for")
    ELSE IF t.shell \/ t.fail # "-" THEN Bad(t, "another shell")
    ELSE IF o.kind # (IF t.k = "cmd" THEN "cmd" ELSE "pool") THEN Bad(t, "not the shell for the call")
    ELSE IF o.kind = "cmd" /\ o.env # t.env THEN Bad(t, "not the environment given")
    ELSE Good(Failed([t EXCEPT !.shell = o.r = "ok"], o.r))
  ELSE IF ~t.shell THEN Bad(t, "no shell yet")
  ELSE IF ~o.sel THEN Bad(t, "addressed to something else")
  ELSE IF t.del > 0 THEN Bad(t, "the shell is deleted already")
  ELSE IF o.n = "delete" THEN
    IF t.fail = "-" /\ ~t.got THEN Bad(t, "deleted before the result is complete") ELSE Good(Failed([t EXCEPT !.del = 1], IF t.fail # "-" THEN "ok" ELSE o.r))
  ELSE IF o.n = "signal" THEN IF ~t.ran THEN Bad(t, "nothing to signal") ELSE Good(Failed(t, IF t.fail # "-" THEN "ok" ELSE o.r))
  ELSE IF t.fail # "-" THEN Bad(t, "goes on after a failure")
  ELSE IF o.n = "setup" THEN IF t.ran \/ t.k = "cmd" THEN Bad(t, "out of place") ELSE Good(Failed(t, o.r))
  ELSE IF o.n = "command" THEN
    IF t.ran THEN Bad(t, "runs it again") ELSE IF o.what # t.want THEN Bad(t, "runs something else: " \o o.what \o " instead of " \o t.want)
    ELSE Good(Failed([t EXCEPT !.ran = TRUE], o.r))
  ELSE IF ~t.ran THEN Bad(t, "nothing runs")
  ELSE IF o.n = "input" THEN IF t.k \in {"copy", "ps", "fetch"} THEN Good(Failed(t, o.r)) ELSE Bad(t, "input nobody gave")
  ELSE IF t.got THEN Bad(t, "receives after the end")
  ELSE Good(Failed([t EXCEPT !.got = (o.r = "ok" /\ o.last)], o.r))
Step(t, o) ==
  CASE t.at = "rejected" -> Bad(t, "before")
    [] o.n = "call" -> IF t.at # "idle" THEN Bad(t, "called again")
                       ELSE Good([InitOf(0) EXCEPT !.at = "calling", !.k = o.k, !.want = What(o), !.env = Pairs(o.env), !.conf = IF o.k = "cmd" THEN "-" ELSE o.conf, !.rep = o.rep])
    [] o.n = "return" -> LET u == [t EXCEPT !.at = "idle"] IN
         IF t.at # "calling" THEN Bad(t, "returned already")
         ELSE IF t.shell /\ t.del # 1 THEN Bad(t, "the shell is left behind")
         ELSE IF t.fail = "-" /\ ~t.got THEN Bad(t, "returned before the end")
         ELSE IF o.res # Expected(t) THEN Bad(t, "the caller got " \o o.res \o " instead of " \o Expected(t))
         ELSE Good(u)
    [] OTHER -> Req(t, o)

\* ---- model: an honest client with at most one failure, and all sequences of requests up to MaxEv
Rep(e) == [out |-> <<"a", "b">>, err |-> "c", rc |-> "-", end |-> e, streams |-> ""]
Rs == {"ok", "optimeout", "E"}
Ops == [n : {"call"}, k : {"cmd", "ps", "fetch"}, text : {"T"}, env : {<<>>, <<<<"A", "1">>, <<"B", "2">>>>}, conf : {"Microsoft.PowerShell"}, rep : {Rep("Completed"), Rep("Failed")}]
  \cup [n : {"create"}, kind : {"cmd", "pool"}, conf : {"-", "Microsoft.PowerShell", "Other"}, env : {"", "A=1 B=2", "B=2 A=1"}, r : {"ok", "E"}]
  \cup [n : {"setup", "delete", "signal", "input"}, sel : {TRUE}, r : {"ok", "E"}]
  \cup [n : {"command"}, sel : BOOLEAN, what : {"process T", "Invoke-Expression(Command=T) Out-String(Stream)", Statement(<<"A", "1">>) \o Statement(<<"B", "2">>) \o "Invoke-Expression(Command=T) Out-String(Stream)", "fetch script"}, r : {"ok", "E"}]
  \cup [n : {"receive"}, sel : {TRUE}, last : BOOLEAN, r : Rs]
  \cup [n : {"return"}, res : {"stdout ab stderr c code -1", "output a/b errors no streams ", "output a/b errors yes streams ", "done", "err:E", "err:WinRMError"}]
Init == s = InitOf(0) /\ op = [n |-> "init"] /\ obs = <<>>
Next == TLCGet("level") <= MaxEv /\ s.at # "rejected" /\ \E o \in Ops : LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
vars == <<s, op, obs>>
Accepted == obs' = <<"accepted">>
OneShell == [][op'.n = "create" /\ Accepted => ~s.shell]_vars
AsConfigured == [][op'.n = "create" /\ Accepted => op'.conf = s.conf]_vars
Released == [][op'.n = "return" /\ Accepted => (s.shell => s.del = 1)]_vars
Raised == [][op'.n = "return" /\ Accepted /\ s.fail # "-" => op'.res = "err:" \o s.fail]_vars
RanOnce == [][op'.n = "command" /\ Accepted => ~s.ran /\ s.shell /\ s.del = 0]_vars
FirstFailure == [][s.fail # "-" /\ s.at = "calling" /\ s'.at = "calling" => s'.fail = s.fail]_vars
DeletedOnce == s.del <= 1
==========================================================================================
