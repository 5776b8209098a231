------------------------------------- MODULE Reply -------------------------------------
(* What the caller of a WSMan request gets for the reply of the server.               *)
(* o.status  HTTP status      o.body  "ok" a SOAP reply, "text" no XML, "empty"       *)
(*           "fault" a SOAP fault with o.f                                            *)
(* o.rel     the reply relates to: "own" this request, "old" the previous one,        *)
(*           "other" an unknown one, "none" nothing, "case" this one without prefix   *)
(* fields of a fault ("-" absent): val, sub, reason of SOAP; wf: a WSManFault is      *)
(*           there, with code, mach, msg and a provider fault prov (prov, path, text) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Statuses
VARIABLES s, op, obs

InitOf(c) == [ws |-> "ready"]
Or(a, b) == IF a # "-" THEN a ELSE b
Own(f, x) == IF f.wf THEN x ELSE "-"
\* blanks around are not part of a text, an empty one counts as absent
Fault(f) == <<"err:WSManFaultError",
   "code " \o Or(Own(f, f.code), Or(f.sub, f.val)), "machine " \o Own(f, f.mach), "reason " \o Or(Own(f, f.msg), f.reason),
   "provider " \o (IF f.wf /\ f.hasprov THEN f.prov \o " path " \o f.path \o " fault " \o f.ptext ELSE "- path - fault -")>>

Step(t, o) ==
  [s |-> t, obs |->
   IF o.status = 401 THEN <<"err:AuthenticationError">>
   ELSE IF o.status >= 400
     THEN IF o.body = "fault" THEN Fault(o.f)
          ELSE <<"err:WinRMTransportError", "status " \o ToString(o.status), "its text">>
   ELSE IF o.body = "ok" /\ o.rel = "own" THEN <<"ok, the reply unchanged">>
   ELSE <<"error">>]

NoFault == [val |-> "-", sub |-> "-", reason |-> "-", wf |-> FALSE, code |-> "-", mach |-> "-", msg |-> "-", hasprov |-> FALSE, prov |-> "-", path |-> "-", ptext |-> "-"]
Opt(a) == {"-", a}
AllFaults == {f \in [val : Opt("s:Sender"), sub : Opt("w:Sub"), reason : Opt("because"), wf : BOOLEAN, code : {"-", "2150858793", "abc"}, mach : Opt("m1"),
              msg : Opt("why"), hasprov : BOOLEAN, prov : Opt("pp"), path : Opt("pa"), ptext : Opt("pt")] :
              /\ ~f.wf => f.code = "-" /\ f.mach = "-" /\ f.msg = "-" /\ ~f.hasprov
              /\ ~f.hasprov => f.prov = "-" /\ f.path = "-" /\ f.ptext = "-"
              /\ f.sub # "-" => f.val # "-"}
Ops == [n : {"call"}, status : Statuses, body : {"ok", "text", "empty"}, rel : {"own", "old", "other", "none", "case"}, f : {NoFault}]
  \cup [n : {"call"}, status : {500, 400}, body : {"fault"}, rel : {"own", "other"}, f : AllFaults]
Useful(t, o) == (o.body \in {"text", "empty"} => o.rel = "own") /\ (o.body = "ok" => o.status < 400 \/ o.status = 401)
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
OnlyRelated == [][obs'[1] = "ok, the reply unchanged" => op'.rel = "own" /\ op'.status < 400]_vars
ErrorsAreErrors == [][op'.status >= 400 => obs'[1] \in {"err:AuthenticationError", "err:WSManFaultError", "err:WinRMTransportError"}]_vars
WsmanFirst == [][op'.body = "fault" /\ op'.f.wf /\ op'.f.code # "-" => obs'[2] = "code " \o op'.f.code]_vars
==========================================================================================
