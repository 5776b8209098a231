------------------------------------ MODULE Keys ------------------------------------
(* The session key exchange of pools and the secure strings that need it.            *)
(* Receiving takes one quantum of time per reply; Limit replies fit in the time the  *)
(* user allows for an exchange.                                                      *)
(*  exch p k   the client asks for the exchange; the key comes after k other replies *)
(*  poll p w k a pipeline of the pool receives: nothing special ("-"), the server's  *)
(*             request for the exchange ("req", twice "reqreq"; the key then comes   *)
(*             after k other replies), the key of an exchange given up before        *)
(*             ("key"), or an output with the secret v encrypted ("ss")              *)
(*  ser p v    a secret is serialized          arg p v  a secret is an argument      *)
(*  cred p v   a credential with the secret is an argument                           *)
(*  inp p v    a credential with the secret is among the input objects               *)
(*  ask p w k v  the server asks the host for a secret: "line" a secure string,      *)
(*             "cred" a credential; with "x" the host asks for the exchange itself    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Limit, Texts, Delays
VARIABLES s, op, obs

InitOf(c) == [p \in 1..NP |-> "none"]
R(t, o) == [s |-> t, obs |-> o]
Rec(k) == [i \in 1..k |-> "pool receive"]
Min(a, b) == IF a < b THEN a ELSE b

\* the one place where a public key is sent
Exchange(t, p, k, ok) ==
  IF t[p] # "none" THEN [s |-> t, w |-> <<>>, out |-> ok]
  ELSE IF k < Limit THEN [s |-> [t EXCEPT ![p] = "done"], w |-> <<"PUBLIC_KEY">> \o Rec(k + 1), out |-> ok]
       ELSE [s |-> [t EXCEPT ![p] = "sent"], w |-> <<"PUBLIC_KEY">> \o Rec(Limit), out |-> "err:InvalidPSRPOperation"]

Step(t, o) ==
  CASE o.n = "exch" -> LET e == Exchange(t, o.p, o.k, "ok") IN R(e.s, <<e.out>> \o e.w)
    [] o.n = "poll" /\ o.w \in {"req", "reqreq"} -> LET e == Exchange(t, o.p, o.k, "ok") IN R(e.s, <<e.out, "receive">> \o e.w)
    [] o.n = "poll" /\ o.w = "key" -> R([t EXCEPT ![o.p] = "done"], <<"ok", "receive">>)
    [] o.n = "poll" /\ o.w = "ss"  -> R(t, <<"ok", "receive", "output " \o o.v>>)
    [] o.n = "poll" -> R(t, <<"ok", "receive">>)
    [] o.n = "ser"  -> IF t[o.p] = "done" THEN R(t, <<"ok", "server decrypts " \o o.v>>) ELSE R(t, <<"err:SerializationError">>)
    [] o.n = "ask"  ->
         LET e == IF o.w \in {"linex", "credx"} THEN Exchange(t, o.p, o.k, "ok") ELSE [s |-> t, w |-> <<>>, out |-> "ok"] IN
         IF e.out # "ok" THEN R(e.s, <<e.out, "receive">> \o e.w)
         ELSE IF e.s[o.p] # "done" THEN R(e.s, <<"err:SerializationError", "receive">> \o e.w)
         ELSE R(e.s, <<"ok", "receive">> \o e.w \o <<"PIPELINE_HOST_RESPONSE", "server decrypts " \o o.v>>)
    [] o.n = "inp"  -> IF t[o.p] = "done" THEN R(t, <<"ok", "server decrypts " \o o.v>>) ELSE R(t, <<"err:SerializationError">>)
    [] o.n \in {"arg", "cred"}  -> IF t[o.p] = "done" THEN R(t, <<"ok", "command", "server decrypts " \o o.v>>) ELSE R(t, <<"err:SerializationError">>)

Op(n, p, w, k, v) == [n |-> n, p |-> p, w |-> w, k |-> k, v |-> v]
Ops == {Op("exch", p, "-", k, "") : p \in 1..NP, k \in Delays}
  \cup {Op("poll", p, w, k, "") : p \in 1..NP, w \in {"req", "reqreq"}, k \in Delays}
  \cup {Op("poll", p, w, 0, "") : p \in 1..NP, w \in {"-", "key"}}
  \cup {Op("poll", p, "ss", 0, v) : p \in 1..NP, v \in Texts}
  \cup {Op(n, p, "-", 0, v) : n \in {"ser", "arg", "cred", "inp"}, p \in 1..NP, v \in Texts}
  \cup {Op("ask", p, w, 0, v) : p \in 1..NP, w \in {"line", "cred"}, v \in Texts}
  \cup {Op("ask", p, w, k, "t1") : p \in 1..NP, w \in {"linex", "credx"}, k \in Delays}
Useful(t, o) == /\ (o.n = "poll" /\ o.w = "ss" => t[o.p] = "done")
                /\ (o.n = "poll" /\ o.w = "key" => t[o.p] = "sent")
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

Has(q, x) == \E i \in DOMAIN q : q[i] = x
OneKey == [][Has(obs', "PUBLIC_KEY") => s[op'.p] = "none" /\ s'[op'.p] # "none"]_vars
NeverBack == [][\A p \in 1..NP : (s[p] = "done" => s'[p] = "done") /\ (s[p] = "sent" => s'[p] # "none")]_vars
OnlyWithKey == [][op'.n \in {"ser", "arg", "cred", "inp", "ask"} => (obs'[1] = "ok") = (s'[op'.p] = "done")]_vars
OthersUntouched == [][\A p \in 1..NP : p # op'.p => s'[p] = s[p]]_vars
LateFails == [][op'.n = "exch" /\ s'[op'.p] = "sent" /\ s[op'.p] = "none" => obs'[1] # "ok"]_vars
=====================================================================================
