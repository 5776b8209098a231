---------------------------------- MODULE Timeouts ----------------------------------
(* How long each wait of the higher layers may take (C26): the calls that take a      *)
(* timeout ask for it, once; all others, and every other request of the same call,    *)
(* use the connection's. cfg: opt, conn, read of the connection.                      *)
(* op: n, timeout (0: none given), late: answers "nothing yet" before the last one    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, Given, MaxLate
VARIABLES s, op, obs

InitOf(c) == [c |-> c, last |-> "none"]
(* what is asked, and whether the call goes on until there is an answer *)
Kind == [poll     |-> [a |-> "Receive", own |-> TRUE,  on |-> FALSE],   \* PowerShell.poll_invoke
         endinv   |-> [a |-> "Receive", own |-> FALSE, on |-> TRUE],    \* PowerShell.end_invoke
         ppoll    |-> [a |-> "Receive", own |-> TRUE,  on |-> FALSE],   \* Process.poll_invoke
         pend     |-> [a |-> "Receive", own |-> FALSE, on |-> TRUE],    \* Process.end_invoke
         receive  |-> [a |-> "Receive", own |-> TRUE,  on |-> FALSE],   \* WinRS.receive
         alive    |-> [a |-> "Get",     own |-> TRUE,  on |-> FALSE]]   \* RunspacePool.is_alive
Req(t, o) == Kind[o.n].a \o (IF o.timeout = 0 THEN " PT" \o ToString(t.c.opt) \o "S http " \o ToString(t.c.conn) \o " " \o ToString(t.c.read)
                             ELSE " PT" \o ToString(o.timeout) \o "S http longer than that")
Count(o) == IF Kind[o.n].on THEN o.late + 1 ELSE 1
Result(o) == IF o.late = 0 \/ Kind[o.n].on THEN (IF o.n = "alive" THEN "True" ELSE "ok")
             ELSE IF o.n = "alive" THEN "False" ELSE IF o.n = "receive" THEN "err:WSManFaultError" ELSE "ok"
Step(t, o) == [s |-> [t EXCEPT !.last = o.n], obs |-> <<Result(o)>> \o [k \in 1..Count(o) |-> Req(t, o)]]
Ops == [n : DOMAIN Kind, timeout : Given, late : 0..MaxLate]
Useful(t, o) == (~Kind[o.n].own => o.timeout = 0) /\ (~Kind[o.n].on => o.late < 2)
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
\* a timeout given for one call is gone with it
NextIsDefault == [][op'.timeout = 0 => \A k \in 2..Len(obs') : obs'[k] = Kind[op'.n].a \o " PT" \o ToString(s.c.opt) \o "S http " \o ToString(s.c.conn) \o " " \o ToString(s.c.read)]_vars
======================================================================================
