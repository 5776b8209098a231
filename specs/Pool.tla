---------------------------------- MODULE Pool ----------------------------------
(* The life of one runspace pool as its user and its server see it.             *)
(* Step(s, o) is the complete contract of one call: o.n is the call, o.r is how *)
(* the server answers the requests the call makes, o.v a value.  The result     *)
(* gives the next state and what must be observable: outcome, requests, state.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values,   \* values used for the min/max runspace counts
          Kinds     \* how the pool object came to be: "own" created here, "disc" listed from the server

VARIABLES s, op, obs

InitState(kind) == [st |-> IF kind = "own" THEN "BeforeOpen" ELSE "Disconnected",
                    kind |-> kind, proto |-> 0, mn |-> 1, mx |-> 1, shell |-> kind = "disc"]
InitOf(c) == InitState(c.kind)

Show(t) == "state:" \o t.st \o " min:" \o ToString(t.mn) \o " max:" \o ToString(t.mx)
R(t, out, reqs) == [s |-> t, obs |-> <<out>> \o reqs \o <<Show(t)>>]
Skip(t) == R(t, "ok", <<>>)
BadState(t) == R(t, "err:InvalidRunspacePoolStateError", <<>>)

\* how the server answers the opening handshake; "ok2" splits its messages over two replies.
\* A with block ("enter") that fails after the shell was created deletes the shell it made.
Open(t, o) ==
  IF t.st = "Opened" THEN Skip(t)
  ELSE IF t.st # "BeforeOpen" THEN BadState(t)
  ELSE LET create == "Create sel:- opt:2.3 " \o "init:" \o ToString(t.mn) \o "/" \o ToString(t.mx)
           created == [t EXCEPT !.st = "NegotiationSent", !.shell = TRUE]
           opened(p) == [created EXCEPT !.st = "Opened", !.proto = p]
           undone == [created EXCEPT !.shell = (o.n = "open")]
           undo == IF o.n = "open" THEN <<>> ELSE <<"Delete sel:own">>
       IN CASE o.r = "fault"  -> R(t, "err:WSManFaultError", <<create>>)
            [] o.r = "rfault" -> R(undone, "err:WSManFaultError", <<create, "Receive sel:own">> \o undo)
            [] o.r = "broken" -> R([undone EXCEPT !.st = "Broken"], "err:InvalidPSRPOperation", <<create, "Receive sel:own">> \o undo)
            [] o.r = "ok22"   -> R(opened(22), "ok", <<create, "Receive sel:own">>)
            [] o.r = "ok"     -> R(opened(23), "ok", <<create, "Receive sel:own">>)
            [] o.r = "ok2"    -> R(opened(23), "ok", <<create, "Receive sel:own", "Receive sel:own">>)

\* the server's counts arrive with the answer to a new client's connect
Connect(t, o) ==
  IF t.st = "Opened" THEN Skip(t)
  ELSE IF t.st # "Disconnected" THEN BadState(t)
  ELSE IF t.kind = "own"
       THEN IF o.r = "fault" THEN R(t, "err:WSManFaultError", <<"Reconnect sel:own">>)
            ELSE R([t EXCEPT !.st = "Opened"], "ok", <<"Reconnect sel:own">>)
       ELSE LET shook == [t EXCEPT !.mn = o.v, !.mx = o.v + 3, !.proto = 23]
                rq == <<"Connect sel:own opt:2.3 handshake">>
            IN CASE o.r = "fault"  -> R(t, "err:WSManFaultError", rq)
                 [] o.r = "rfault" -> R(shook, "err:WSManFaultError", rq \o <<"Receive sel:own">>)
                 [] o.r = "broken" -> R([shook EXCEPT !.st = "Broken"], "err:InvalidPSRPOperation", rq \o <<"Receive sel:own">>)
                 [] OTHER          -> R([shook EXCEPT !.st = "Opened", !.kind = "own"], "ok", rq \o <<"Receive sel:own">>)

Disconnect(t, o) ==
  IF t.st = "Disconnected" THEN Skip(t)
  ELSE IF t.st # "Opened" THEN BadState(t)
  ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", <<"Disconnect sel:own">>)
  ELSE R([t EXCEPT !.st = "Disconnected"], "ok", <<"Disconnect sel:own">>)

Close(t, o) ==
  IF t.st \in {"Closed", "Broken"} THEN Skip(t)
  ELSE IF ~t.shell THEN R([t EXCEPT !.st = "Closed"], "ok", <<>>)
  ELSE IF o.r = "fault" THEN R(t, "err:WSManFaultError", <<"Delete sel:own">>)
  ELSE R([t EXCEPT !.st = "Closed", !.shell = FALSE], "ok", <<"Delete sel:own">>)

\* a call answered on the pool's own stream: how the three calls end
Call(t, done, msg, o) ==
  LET rq == <<"Send sel:own " \o msg>> IN
  CASE o.r = "fault"  -> R(t, "err:WSManFaultError", rq)
    [] o.r = "rfault" -> R(t, "err:WSManFaultError", rq \o <<"Receive sel:own">>)
    [] o.r = "refuse" -> R(t, "err:InvalidPSRPOperation", rq \o <<"Receive sel:own">>)
    [] o.r = "broken" -> R([t EXCEPT !.st = "Broken"], "err:InvalidPSRPOperation", rq \o <<"Receive sel:own">>)
    [] OTHER          -> R(done, "ok", rq \o <<"Receive sel:own">>)

Reset(t, o) ==
  IF t.st = "BeforeOpen" THEN Skip(t)
  ELSE IF t.st # "Opened" THEN BadState(t)
  ELSE IF t.proto < 23 THEN R(t, "err:InvalidPSRPOperation", <<>>)
  ELSE Call(t, t, "RESET_RUNSPACE_STATE", o)

SetMin(t, o) ==
  IF t.st # "Opened" THEN R([t EXCEPT !.mn = o.v], "ok", <<>>)
  ELSE IF t.mn = o.v THEN Skip(t)
  ELSE Call(t, [t EXCEPT !.mn = o.v], "SET_MIN_RUNSPACES=" \o ToString(o.v), o)

SetMax(t, o) ==
  IF t.st # "Opened" THEN R([t EXCEPT !.mx = o.v], "ok", <<>>)
  ELSE IF t.mx = o.v THEN Skip(t)
  ELSE Call(t, [t EXCEPT !.mx = o.v], "SET_MAX_RUNSPACES=" \o ToString(o.v), o)

Step(t, o) ==
  CASE o.n \in {"open", "enter"} -> Open(t, o)
    [] o.n = "connect"    -> Connect(t, o)
    [] o.n = "disconnect" -> Disconnect(t, o)
    [] o.n \in {"close", "exit", "exitexc"} -> Close(t, o)
    [] o.n = "reset"      -> Reset(t, o)
    [] o.n = "setmin"     -> SetMin(t, o)
    [] o.n = "setmax"     -> SetMax(t, o)

O(n, r, v) == [n |-> n, r |-> r, v |-> v]
Ops == {O(n, r, 0) : n \in {"open", "enter"}, r \in {"ok", "ok2", "ok22", "fault", "rfault", "broken"}}
  \cup {O("connect", r, v) : r \in {"ok", "fault", "rfault", "broken"}, v \in Values}
  \cup {O(n, r, 0) : n \in {"close", "disconnect", "exit", "exitexc"}, r \in {"ok", "fault"}}
  \cup {O("reset", r, 0) : r \in {"ok", "fault", "rfault", "refuse", "broken"}}
  \cup {O(n, r, v) : n \in {"setmin", "setmax"}, r \in {"ok", "fault", "rfault", "refuse", "broken"}, v \in Values}

Init == \E k \in Kinds : s = InitState(k) /\ op = O("init", "", 0) /\ obs = <<>>
Next == \E o \in Ops : LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

(*------------------------------ C01 as properties -----------------------------*)
TypeOK == s.st \in {"BeforeOpen", "NegotiationSent", "Opened", "Disconnected", "Closed", "Broken"}
Sent(x) == Len(x) - 2
Silent == Sent(obs') = 0
InvalidChangesNothing == [][obs'[1] = "err:InvalidRunspacePoolStateError" => Silent /\ s' = s]_vars
FinalIsSilent == [][s.st \in {"Closed", "Broken"} => Silent /\ s'.st = s.st]_vars
FaultKeepsState == [][obs'[1] = "err:WSManFaultError" => s'.st = s.st \/ (s.st = "BeforeOpen" /\ s'.st = "NegotiationSent")]_vars
BrokenIsRaised == [][s'.st = "Broken" /\ s.st # "Broken" => obs'[1] = "err:InvalidPSRPOperation"]_vars
NothingWithoutShell == [][~s.shell /\ ~Silent => op'.n \in {"open", "enter"}]_vars
OpenIffOpened == [][op'.n \in {"open", "enter"} /\ obs'[1] = "ok" => s'.st = "Opened"]_vars
CloseIffClosed == [][op'.n \in {"close", "exit", "exitexc"} /\ obs'[1] = "ok" => s'.st \in {"Closed", "Broken"}]_vars
ShellGoneOnce == [][s.shell /\ ~s'.shell => op'.n \in {"close", "exit", "exitexc"} /\ Sent(obs') = 1]_vars
MinMaxOnlyByCall == [][(s'.mn # s.mn \/ s'.mx # s.mx) => op'.n \in {"setmin", "setmax", "connect"}]_vars
==============================================================================
