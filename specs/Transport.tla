---------------------------------- MODULE Transport ----------------------------------
(* Requests of one WSMan connection over HTTP: retries, authentication and message   *)
(* encryption.                                                                        *)
(*   send   one WSMan request; o.k is "recv" (a receive), "other" or "probe" (whether *)
(*          a pool is alive, which opens no connection); o.x are the                  *)
(*          outcomes of the HTTP requests it causes, in order; "good" from then on.   *)
(*          good: the server does its part (challenge, token, reply)                  *)
(*          rt, ct: read / connect timeout     cerr: connection error                 *)
(*          cut: the connection breaks within the reply                               *)
(*          gone: there is no connection any more (probes)                            *)
(*          anew: the server does not know the security context (any more)           *)
(*          401: access denied   fault, text: error reply with / without a SOAP fault *)
(*   close  the connection object is closed; the server forgets what it knew of it     *)
(* With encryption a security context is made by an empty request that is challenged  *)
(* and Legs empty requests that carry its tokens; it lives until the connection fails. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Legs, MaxTries, MaxX, Outcomes
VARIABLES s, op, obs

InitOf(c) == [enc |-> c.enc, auth |-> FALSE]
At(x, i) == IF i <= Len(x) THEN x[i] ELSE "good"
Lost == {"rt", "ct", "cerr", "cut", "gone"}
Err(o, h) == CASE o.k = "probe" /\ h \in Lost -> "ok, dead" [] h = "rt" -> "err:ReadTimeout" [] h = "ct" -> "err:ConnectTimeout" [] h = "cerr" -> "err:ConnectionError" [] h = "cut" -> "err:the reply is incomplete"
            [] h = "401" -> "err:AuthenticationError" [] h = "fault" -> "err:WSManFaultError" [] h = "text" -> "err:WinRMTransportError"
Tries(o) == IF o.k = "recv" THEN MaxTries ELSE 1

\* state and log after HTTP request number i of the call; left: tries that remain, this one included; f: authenticated in this call
RECURSIVE Go(_, _, _, _, _, _, _)
Go(t, o, phase, i, left, log, f) ==
  LET h == At(o.x, i)
      wire == CASE phase = 0 -> "authentication starts" [] phase \in 1..Legs -> "token" [] h = "anew" -> "message refused" [] OTHER -> IF t.enc THEN "message in the last context" ELSE "message in the clear"
      l2 == Append(log, wire)
      lost == [t EXCEPT !.auth = FALSE]
  IN IF h \in {"rt", "ct"}
     THEN IF left > 1 THEN Go(lost, o, IF t.enc THEN 0 ELSE Legs + 1, i + 1, left - 1, Append(l2, "wait"), f)
          ELSE [s |-> lost, obs |-> <<Err(o, h)>> \o l2]
     ELSE IF h = "anew"
     THEN IF f THEN [s |-> lost, obs |-> <<"err:AuthenticationError">> \o l2]
          ELSE Go(lost, o, 0, i + 1, left, l2, TRUE)
     ELSE IF h \in {"cerr", "cut", "gone"} THEN [s |-> lost, obs |-> <<Err(o, h)>> \o l2]
     ELSE IF h # "good" THEN [s |-> t, obs |-> <<Err(o, h)>> \o l2]
     ELSE IF phase > Legs THEN [s |-> t, obs |-> <<IF o.k = "probe" THEN "ok, alive" ELSE "ok, the reply">> \o l2]
     ELSE Go(IF phase = Legs THEN [t EXCEPT !.auth = TRUE] ELSE t, o, phase + 1, i + 1, left, l2, f \/ phase = Legs)

Step(t, o) == IF o.n = "close" THEN [s |-> [t EXCEPT !.auth = FALSE], obs |-> <<"ok">>] ELSE Go(t, o, IF t.enc /\ ~t.auth THEN 0 ELSE Legs + 1, 1, Tries(o), <<>>, FALSE)

\* denied access comes where the server decides about it: on the last token (or on the message without encryption)
RECURSIVE Phases(_, _, _, _, _)
Phases(enc, x, i, ph, f) ==
  IF i > Len(x) THEN TRUE
  ELSE LET h == x[i] last == ph = Legs msg == ph > Legs IN
    /\ h = "401" => (enc /\ last) \/ (~enc /\ msg)
    /\ h = "anew" => enc /\ msg /\ (f => i = Len(x)) /\ (~f => Phases(enc, x, i + 1, 0, TRUE))
    /\ h = "fault" => msg
    /\ h = "text" => msg
    /\ (h \in {"rt", "ct"} => Phases(enc, x, i + 1, IF enc THEN 0 ELSE Legs + 1, f))
    /\ (h = "good" /\ ~msg => Phases(enc, x, i + 1, ph + 1, f \/ last))
    /\ (h = "good" /\ msg => i = Len(x))
    /\ (h \in {"cerr", "cut", "gone", "401", "fault", "text"} => i = Len(x))
Useful(t, o) == \/ o.n = "close"
                \/ /\ o.k = "probe" \/ \A i \in DOMAIN o.x : o.x[i] # "gone"
                   /\ Phases(t.enc, o.x, 1, IF t.enc /\ ~t.auth THEN 0 ELSE Legs + 1, FALSE)

Seqs == UNION {[1..n -> Outcomes] : n \in 0..MaxX}
Ops == [n : {"send"}, k : {"recv", "other", "probe"}, x : Seqs] \cup {[n |-> "close", k |-> "-", x |-> <<>>]}
Init == s \in {InitOf([enc |-> e]) : e \in BOOLEAN} /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

Msg(q) == {i \in DOMAIN q : q[i] \in {"message in the last context", "message in the clear"}}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
\* C13
OthersOnce == [][op'.k \in {"other", "probe"} => Cardinality(Msg(obs')) <= 1 /\ Count(obs', "wait") = 0]_vars
ReceiveBounded == [][Cardinality(Msg(obs')) <= MaxTries /\ Count(obs', "wait") < MaxTries]_vars
OnlyTimeoutsRetried == [][\A i \in DOMAIN op'.x : op'.x[i] = "cerr" => obs'[1] # "ok, the reply"]_vars
\* C14
NeverClear == [][s.enc => Count(obs', "message in the clear") = 0]_vars
ClearOnlyWithout == [][~s.enc => Count(obs', "message in the last context") = 0 /\ Count(obs', "token") = 0]_vars
EveryMessageAuthenticated == [][s.enc => \A i \in Msg(obs') :
    LET before == {j \in 1..(i - 1) : obs'[j] \in {"wait", "message refused", "message in the last context"}} IN
    (before = {} /\ s.auth) \/ (i > Legs + 1 /\ \A j \in 1..Legs : obs'[i - j] = "token")]_vars
\* a probe raises nothing for a lost connection, and what was lost is not used again
ProbeLost == [][op'.k = "probe" => (obs'[1] = "ok, dead" => ~s'.auth) /\ obs'[1] \notin {"err:ReadTimeout", "err:ConnectTimeout", "err:ConnectionError", "err:the reply is incomplete"}]_vars
\* a message is refused at most once in a context that was made for it, and never more than twice
RefusedTwice == [][Count(obs', "message refused") <= 2 /\ (Count(obs', "message refused") = 2 => obs'[1] = "err:AuthenticationError")]_vars
ClosedIsLost == [][op'.n = "close" => ~s'.auth /\ obs' = <<"ok">>]_vars
LostIsLost == [][obs'[1] \in {"err:ReadTimeout", "err:ConnectTimeout", "err:ConnectionError", "err:the reply is incomplete"} => ~s'.auth]_vars
========================================================================================
