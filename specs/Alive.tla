------------------------------------- MODULE Alive -------------------------------------
(* Liveness probes of an opened pool over real connections (C16).                       *)
(* state: idle = open connections not in use, st = state of the pool, gone = the remote *)
(*   shell was deleted                                                                  *)
(* operations: req (a request with an answer), alive (a probe with an answer), drop     *)
(*   (the server closes the idle connections), shut (the client closes them all, by      *)
(*   closing its connection object), close (the pool), par (a probe waits for *)
(*   its answer while another thread sends a request), rap (the other way round)        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES s, op, obs

InitOf(c) == [idle |-> 1, st |-> "Opened", gone |-> FALSE]
New(t) == IF t.idle > 0 THEN 0 ELSE 1
Max(a, b) == IF a > b THEN a ELSE b
\* connections left open after a request that keeps / loses its connection
Kept(t) == Max(t.idle, 1)
Lost(t) == Max(t.idle, 1) - 1
\* cut, stall: half of the reply comes, then the connection ends or nothing more comes
Fails == {"reset", "timeout", "cut", "stall"}
Dead == {"Disconnected", "gone", "selectors"} \cup Fails
Raised == [other |-> "err:WSManFaultError", text |-> "err:WinRMTransportError", denied |-> "err:AuthenticationError", foreign |-> "err:WinRMError"]

ReqRes(r) == IF r = "reset" THEN "err:ConnectionError" ELSE IF r = "timeout" THEN "err:ReadTimeout" ELSE IF r \in Fails THEN "err:incomplete" ELSE IF r \in DOMAIN Raised THEN Raised[r] ELSE "ok"
After(t, r) == IF r \in Fails \cup {"last"} THEN Lost(t) ELSE Kept(t)
ProbeRes(t, r) == IF t.idle = 0 \/ r \in Dead THEN "False" ELSE IF r \in DOMAIN Raised THEN Raised[r] ELSE "True"
Probe(t, r) == IF t.idle = 0 THEN [t EXCEPT !.st = "Closed"]
               ELSE [t EXCEPT !.idle = After(t, r), !.st = IF r \in Dead THEN "Closed" ELSE @]
Show(res, new, sent, t) == res \o <<"connections " \o ToString(new), "requests " \o ToString(sent), "pool " \o t.st>>

Step(t, o) ==
  CASE o.n = "req" -> LET u == [t EXCEPT !.idle = After(t, o.r)] IN [s |-> u, obs |-> Show(<<ReqRes(o.r)>>, New(t), 1, u)]
    [] o.n = "alive" -> LET u == Probe(t, o.r) IN [s |-> u, obs |-> Show(<<ProbeRes(t, o.r)>>, 0, IF t.idle = 0 THEN 0 ELSE 1, u)]
    [] o.n = "drop" -> LET u == [t EXCEPT !.idle = 0] IN [s |-> u, obs |-> Show(<<"ok">>, 0, 0, u)]
    [] o.n = "shut" -> LET u == [t EXCEPT !.idle = 0] IN [s |-> u, obs |-> Show(<<"ok", "left open 0">>, 0, 0, u)]
    [] o.n = "close" -> LET u == IF t.st = "Closed" THEN t ELSE [t EXCEPT !.idle = Kept(t), !.st = "Closed", !.gone = TRUE] IN
         [s |-> u, obs |-> Show(<<"ok">>, IF t.st = "Closed" THEN 0 ELSE New(t), IF t.st = "Closed" THEN 0 ELSE 1, u)]
    \* the probe holds one connection, the request needs another one
    [] o.n = "par" -> LET u == [Probe(t, o.r) EXCEPT !.idle = Max(t.idle, 2) - (IF o.r \in Fails \cup {"last"} THEN 1 ELSE 0)] IN
         [s |-> u, obs |-> Show(<<ProbeRes(t, o.r), "ok">>, IF t.idle > 1 THEN 0 ELSE 1, 2, u)]
    \* the request holds a connection (a new one if there was none), the probe needs another open one
    [] o.n = "rap" -> LET v == [t EXCEPT !.idle = Max(t.idle, 1) - 1]
                          u == [Probe(v, o.r) EXCEPT !.idle = @ + 1] IN
         [s |-> u, obs |-> Show(<<ProbeRes(v, o.r), "ok">>, New(t), 1 + (IF v.idle = 0 THEN 0 ELSE 1), u)]

Answers == {"Connected", "nostate", "last"} \cup Dead \cup DOMAIN Raised
Ops == [n : {"req"}, r : {"Connected", "last", "reset", "cut", "other"}] \cup [n : {"alive"}, r : Answers] \cup [n : {"drop", "close", "shut"}, r : {"-"}]
  \cup [n : {"par", "rap"}, r : {"Connected", "Disconnected", "other"}]
Useful(t, o) == /\ o.n = "par" => t.idle > 0
                /\ t.idle = 0 /\ o.n = "alive" => o.r = "Connected"
                /\ t.idle < 2 /\ o.n = "rap" => o.r = "Connected"
                /\ o.n = "drop" => t.idle > 0
                \* which of several idle connections is used next is not specified, so none of them is lost alone
                /\ t.idle = 2 => o.r \notin Fails \cup {"last"}
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
NeverOpens == [][op'.n = "alive" => obs'[2] = "connections 0"]_vars
TrueIffAnswered == [][op'.n = "alive" => (obs'[1] = "True" <=> s.idle > 0 /\ op'.r \in {"Connected", "nostate", "last"})]_vars
FalseCloses == [][op'.n = "alive" /\ obs'[1] = "False" => s'.st = "Closed"]_vars
OthersConnect == [][op'.n = "req" /\ s.idle = 0 => obs'[2] = "connections 1"]_vars
==========================================================================================
