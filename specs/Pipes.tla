---------------------------------- MODULE Pipes ----------------------------------
(* Pipelines of one or more runspace pools that share a connection.              *)
(* pools[k]  state of pool k;  ps[i]  pipeline i, which belongs to PoolOf[i].    *)
(* ps[i].reg whether its pool keeps it: "r" from its start until it is stopped   *)
(*           or closed, "-" otherwise, "?" (unspecified) if its start failed.    *)
(* Requests are shown as "<action> <pool> [p<i>] ...": the shell selector must   *)
(* be pool's own and the command id the one the server assigned to pipeline i    *)
(* most recently, otherwise the implementation's trace shows another name.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PoolOf,    \* e.g. <<1, 1, 1>>
          NestedIn,  \* 0, or the parent whose create_nested call makes pipeline i
          PoolOps,   \* TRUE: pool calls are part of the alphabet
          Finals,    \* final states the server may report
          Waits      \* numbers of operation timeouts before a final state
VARIABLES s, op, obs

NP == 1 + (CHOOSE m \in {PoolOf[i] : i \in DOMAIN PoolOf} : \A i \in DOMAIN PoolOf : PoolOf[i] <= m) - 1
Fresh(i) == [st |-> IF NestedIn[i] = 0 THEN "NotStarted" ELSE "Absent", fd |-> FALSE, reg |-> "-"]
InitOf(c) == [pools |-> [k \in 1..NP |-> IF c.opened THEN "Opened" ELSE "BeforeOpen"], ps |-> [i \in DOMAIN PoolOf |-> Fresh(i)]]

P(i) == "p" \o ToString(i)
A(k) == "pool" \o ToString(k)
At(i) == A(PoolOf[i]) \o " " \o P(i)

RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN "" ELSE Join(f, n - 1) \o " " \o f[n]
Show(t) == "pools:" \o Join(t.pools, Len(t.pools)) \o " ps:" \o Join([i \in DOMAIN t.ps |-> t.ps[i].st \o t.ps[i].reg], Len(t.ps))
R(t, out, reqs) == [s |-> t, obs |-> <<out>> \o reqs \o <<Show(t)>>]
Bad(t) == R(t, "err:InvalidPipelineStateError", <<>>)
Set(t, i, st) == [t EXCEPT !.ps[i].st = st]
Reg(t, i, r) == [t EXCEPT !.ps[i].reg = r]

Receives(i, n) == [j \in 1..n |-> "Receive " \o At(i)]

(* one or more polls of a running pipeline: o.c operation timeouts, then o.r     *)
Finish(t, i, o, reqs) ==
  LET rq == reqs \o Receives(i, o.c + 1) IN
  CASE o.r = "fault" -> R(t, "err:WSManFaultError", rq)
    [] OTHER         -> R(Set(t, i, o.r), "ok", rq)

Startable == {"NotStarted", "Stopped", "Completed", "Failed"}
Ended == {"Stopped", "Completed", "Failed"}
Create(i) == "Command " \o At(i) \o " CREATE_PIPELINE nested:" \o (IF NestedIn[i] = 0 THEN "false" ELSE "true")

Begin(t, o) == IF t.ps[o.i].st \notin Startable THEN Bad(t)
               ELSE IF o.r = "fault" THEN R(IF t.ps[o.i].reg = "-" THEN Reg(t, o.i, "?") ELSE t, "err:WSManFaultError", <<Create(o.i)>>)
               ELSE R(Reg(Set(t, o.i, "Running"), o.i, "r"), "ok", <<Create(o.i)>>)
Invoke(t, o) == IF t.ps[o.i].st \notin Startable THEN Bad(t)
                ELSE Finish(Reg(Set(t, o.i, "Running"), o.i, "r"), o.i, o, <<Create(o.i)>>)
NoCommands(t, o) == IF t.ps[o.i].st \notin Startable THEN Bad(t) ELSE R(t, "err:InvalidPSRPOperation", <<>>)
Poll(t, o) == CASE o.r = "timeout" -> R(t, "ok", Receives(o.i, 1))
                [] o.r = "fault"   -> R(t, "err:WSManFaultError", Receives(o.i, 1))
                [] o.r = "none"    -> R(t, "ok", Receives(o.i, 1))
                [] OTHER           -> R(Set(t, o.i, o.r), "ok", Receives(o.i, 1))
End(t, o) == IF t.ps[o.i].st # "Running" THEN R(t, "ok", <<>>) ELSE Finish(t, o.i, o, <<>>)
Stop(t, o) == LET sig == <<"Signal " \o At(o.i) \o " powershell/signal/ctrl_c">> st == t.ps[o.i].st IN
              IF st \in {"Stopping", "Stopped"} THEN R(t, "ok", <<>>)
              ELSE IF st # "Running" THEN Bad(t)
              ELSE IF o.r = "fault" THEN R(Set(t, o.i, "Stopping"), "err:WSManFaultError", sig)
              ELSE R(Reg(Set(t, o.i, "Stopped"), o.i, "-"), "ok", sig)
Close(t, o) == LET sig == <<"Signal " \o At(o.i) \o " Terminate">> st == t.ps[o.i].st IN
               IF st = "NotStarted" THEN R(t, "ok", <<>>)
               ELSE IF st \notin Ended THEN Bad(t)
               ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", sig)
               ELSE R(Reg(t, o.i, "-"), "ok", sig)
ConnectPs(t, o) == LET rq == <<"Connect " \o At(o.i)>>
                       t2 == [t EXCEPT !.ps[o.i] = [@ EXCEPT !.st = "Running", !.fd = TRUE]] IN
                   IF t.ps[o.i].st # "Disconnected" THEN Bad(t)
                   ELSE IF o.c = 0 THEN IF o.r = "fault" THEN R(t, "err:WSManFaultError", rq) ELSE R(t2, "ok", rq)
                   ELSE Finish(t2, o.i, [o EXCEPT !.c = @ - 1], rq)
\* o.i is the pipeline the nested one is created from; the first one created takes the slot
Slot(i) == {j \in DOMAIN NestedIn : NestedIn[j] = i}
Nest(t, o) == IF t.ps[o.i].st # "Running" THEN Bad(t)
              ELSE IF t.ps[o.i].fd THEN R(t, "err:InvalidPSRPOperation", <<>>)
              ELSE R([t EXCEPT !.ps = [j \in DOMAIN t.ps |-> IF j \in Slot(o.i) /\ t.ps[j].st = "Absent" THEN [st |-> "NotStarted", fd |-> FALSE, reg |-> "-"] ELSE t.ps[j]]], "ok", <<>>)

PoolOpen(t, o) == LET rq == <<"Create " \o A(o.i)>> IN
                  IF t.pools[o.i] = "Opened" THEN R(t, "ok", <<>>)
                  ELSE IF t.pools[o.i] # "BeforeOpen" THEN R(t, "err:InvalidRunspacePoolStateError", <<>>)
                  ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", rq)
                  ELSE R([t EXCEPT !.pools[o.i] = "Opened"], "ok", rq \o <<"Receive " \o A(o.i)>>)
PoolClose(t, o) == LET rq == <<"Delete " \o A(o.i)>> IN
                   IF t.pools[o.i] = "Closed" THEN R(t, "ok", <<>>)
                   ELSE IF t.pools[o.i] = "BeforeOpen" THEN R([t EXCEPT !.pools[o.i] = "Closed"], "ok", <<>>)
                   ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", rq)
                   ELSE R([t EXCEPT !.pools[o.i] = "Closed"], "ok", rq)
PoolDisconnect(t, o) == LET rq == <<"Disconnect " \o A(o.i)>> IN
                   IF t.pools[o.i] = "Disconnected" THEN R(t, "ok", <<>>)
                   ELSE IF t.pools[o.i] # "Opened" THEN R(t, "err:InvalidRunspacePoolStateError", <<>>)
                   ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", rq)
                   ELSE R([t EXCEPT !.pools[o.i] = "Disconnected",
                                    !.ps = [j \in DOMAIN t.ps |-> IF PoolOf[j] = o.i /\ t.ps[j].st = "Running" THEN [t.ps[j] EXCEPT !.st = "Disconnected"] ELSE t.ps[j]]],
                          "ok", rq)
PoolConnect(t, o) == LET rq == <<"Reconnect " \o A(o.i)>> IN
                   IF t.pools[o.i] = "Opened" THEN R(t, "ok", <<>>)
                   ELSE IF t.pools[o.i] # "Disconnected" THEN R(t, "err:InvalidRunspacePoolStateError", <<>>)
                   ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", rq)
                   ELSE R([t EXCEPT !.pools[o.i] = "Opened"], "ok", rq)
PoolAvail(t, o) == R(t, "ok", <<"Send " \o A(o.i) \o " GET_AVAILABLE_RUNSPACES", "Receive " \o A(o.i)>>)
\* the pipelines the pool offers for connecting
PoolList(t, o) == R(t, "ok:" \o Join([j \in DOMAIN t.ps |-> IF PoolOf[j] = o.i /\ t.ps[j].st = "Disconnected" THEN P(j) ELSE "-"], Len(t.ps)), <<>>)

Step(t, o) ==
  CASE o.n = "begin" -> Begin(t, o)    [] o.n = "invoke" -> Invoke(t, o)
    [] o.n = "beginempty" -> NoCommands(t, o)
    [] o.n = "poll" -> Poll(t, o)      [] o.n = "end" -> End(t, o)
    [] o.n = "stop" -> Stop(t, o)      [] o.n \in {"close", "exit"} -> Close(t, o)
    [] o.n = "connect" -> ConnectPs(t, o)  [] o.n = "nested" -> Nest(t, o)
    [] o.n = "popen" -> PoolOpen(t, o) [] o.n = "pclose" -> PoolClose(t, o)
    [] o.n = "pdisconnect" -> PoolDisconnect(t, o) [] o.n = "pconnect" -> PoolConnect(t, o)
    [] o.n = "pavail" -> PoolAvail(t, o) [] o.n = "plist" -> PoolList(t, o)

Op(n, i, r, c) == [n |-> n, i |-> i, r |-> r, c |-> c]
PS == DOMAIN PoolOf
Ops == {Op(n, i, r, c) : n \in {"begin"}, i \in PS, r \in {"ok", "fault"}, c \in {0, 1}}   \* c = 1: the server chooses another command id
  \cup {Op("invoke", i, r, c) : i \in PS, r \in Finals \cup {"fault"}, c \in Waits}
  \cup {Op("end", i, r, c) : i \in PS, r \in Finals \cup {"fault"}, c \in Waits}
  \cup {Op("connect", i, r, 0) : i \in PS, r \in {"ok", "fault"}}
  \cup {Op("connect", i, r, c + 1) : i \in PS, r \in Finals \cup {"fault"}, c \in Waits}
  \cup {Op("poll", i, r, 0) : i \in PS, r \in Finals \cup {"fault", "timeout", "none", "Running"}}
  \cup {Op(n, i, r, 0) : n \in {"stop", "close", "exit"}, i \in PS, r \in {"ok", "fault"}}
  \cup {Op(n, i, "ok", 0) : n \in {"nested", "beginempty"}, i \in PS}
  \cup IF ~PoolOps THEN {} ELSE
       {Op(n, k, r, 0) : n \in {"popen", "pclose", "pdisconnect", "pconnect"}, k \in 1..NP, r \in {"ok", "fault"}}
  \cup {Op(n, k, "ok", 0) : n \in {"pavail", "plist"}, k \in 1..NP}

IsPool(o) == o.n \in {"popen", "pclose", "pdisconnect", "pconnect", "pavail", "plist"}
\* which calls the contract speaks about in state t
Useful(t, o) ==
  IF IsPool(o) THEN (o.n = "pavail" => t.pools[o.i] = "Opened")
  ELSE LET st == t.ps[o.i].st pst == t.pools[PoolOf[o.i]] sent == Len(Step(t, o).obs) > 2 IN
       /\ st # "Absent"
       /\ (o.n = "poll" => st \in {"Running", "Stopping"} /\ pst = "Opened")
       /\ (sent => pst = "Opened" \/ (pst = "Disconnected" /\ o.n \in {"close", "exit", "connect"}))
       /\ (o.n = "beginempty" => pst = "Opened")
       /\ (~sent => o.r \in {"ok", "Completed"} /\ (o.n # "connect" => o.c = 0))

Init == s = InitOf([opened |-> ~PoolOps]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

TypeOK == \A i \in PS : s.ps[i].st \in {"Absent", "NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"}
InvalidChangesNothing == [][obs'[1] \in {"err:InvalidPipelineStateError", "err:InvalidPSRPOperation", "err:InvalidRunspacePoolStateError"} => s' = s /\ Len(obs') = 2]_vars
OthersUntouched == [][~IsPool(op') => \A j \in PS : (j # op'.i /\ s.ps[j].st # "Absent") => s'.ps[j] = s.ps[j]]_vars
PoolUntouched == [][~IsPool(op') => s'.pools = s.pools]_vars
DisconnectExactlyRunning == [][IsPool(op') => \A j \in PS : s'.ps[j] # s.ps[j] =>
                                   op'.n = "pdisconnect" /\ s.ps[j].st = "Running" /\ s'.ps[j].st = "Disconnected" /\ PoolOf[j] = op'.i]_vars
RunningIsKept == \A j \in PS : s.ps[j].st \in {"Running", "Stopping", "Disconnected"} => s.ps[j].reg = "r"
RunningOnlyByStart == [][\A j \in PS : s.ps[j].st # "Running" /\ s'.ps[j].st = "Running" => op'.i = j /\ op'.n \in {"begin", "invoke", "connect", "poll"}]_vars
ClosedPoolSilent == [][IsPool(op') /\ s.pools[op'.i] = "Closed" => Len(obs') = 2]_vars
==============================================================================
