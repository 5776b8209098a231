------------------------------------ MODULE Connect ------------------------------------
(* How a connection reaches its server (C31): directly or through which proxy, over TLS   *)
(* with a server certificate that is trusted or not, as whom, and how often a connection  *)
(* is attempted.  A configuration c:                                                      *)
(*  ssl; cert: good/self/host/expired (the server's); verify: yes/no/ca/other (a file of  *)
(*  authorities, with the server's or without); envca: none/ca/other (REQUESTS_CA_BUNDLE) *)
(*  auth: basic/certificate; have: both/first/second/none (user and password, or          *)
(*  certificate and key); pw: the key is encrypted; proxy: -/plain/creds; noproxy;        *)
(*  env: the schemes environment proxies are set for; envno: NO_PROXY has the server;     *)
(*  retries                                                                               *)
(* operations  req k f: a request, the first k attempts to connect are refused;           *)
(*               f = ok, or lost: the server closes the connection after the request      *)
(*             close: the connection object is closed                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MaxK, Lost, MaxReq
VARIABLES s, op, obs

InitOf(c) == [c |-> c, open |-> FALSE, n |-> 0]
Scheme(c) == IF c.ssl THEN "https" ELSE "http"
Has(l, x) == \E i \in DOMAIN l : l[i] = x
Missing(c) == c.have # "both" \/ (c.auth = "certificate" /\ ~c.ssl)
Route(c) == IF c.proxy # "-" THEN "proxy " \o c.proxy
            ELSE IF c.noproxy \/ c.envno THEN "direct"
            ELSE IF Has(c.env, Scheme(c)) THEN "environment proxy " \o Scheme(c)
            ELSE IF Has(c.env, "all") THEN "environment proxy all" ELSE "direct"
Authorities(c) == CASE c.verify = "no" -> "any" [] c.verify \in {"ca", "other"} -> c.verify [] c.verify = "yes" -> (IF c.envca = "none" THEN "system" ELSE c.envca)
Trusted(c) == ~c.ssl \/ Authorities(c) = "any" \/ (Authorities(c) = "ca" /\ c.cert = "good")
Who(c) == IF c.auth = "basic" THEN "as the user" ELSE "as the certificate of client"
\* what the server and the proxy see
Seen(c) == LET r == Route(c) IN
  IF r = "direct" THEN <<"direct">> ELSE <<r \o (IF c.ssl THEN " connect" ELSE " whole address") \o (IF c.proxy = "creds" THEN " with its credentials" ELSE "")>>
Req(t, o) ==
  IF Missing(t.c) THEN [s |-> t, obs |-> <<"ValueError", "0 attempts", "0 requests">>]
  ELSE IF ~t.open /\ o.k > t.c.retries THEN [s |-> t, obs |-> <<"failed", ToString(t.c.retries + 1) \o " attempts", "0 requests">>]
  ELSE IF ~Trusted(t.c) THEN [s |-> t, obs |-> <<"untrusted", "some attempts", "0 requests">>]
  ELSE LET a == IF t.open THEN "0 attempts" ELSE ToString(o.k + 1) \o " attempts" IN
       [s |-> [t EXCEPT !.open = o.f = "ok"], obs |-> <<IF o.f = "ok" THEN "ok" ELSE "failed", a, "1 requests", Who(t.c)>> \o Seen(t.c)]
Step(t0, o) == LET t == [t0 EXCEPT !.n = @ + 1] IN
  IF o.n = "close" THEN [s |-> [t EXCEPT !.open = FALSE], obs |-> <<"ok", "0 attempts", "0 requests">>] ELSE Req(t, o)
Ops == {[n |-> "close", k |-> 0, f |-> "ok"]} \cup {[n |-> "req", k |-> k, f |-> f] : k \in 0..MaxK, f \in {"ok"} \cup (IF Lost THEN {"lost"} ELSE {})}
\* an untrusted server and refusals together: how often each is tried is not specified
Useful(t, o) == o.n = "req" => (~Trusted(t.c) => o.k = 0)
Init == (\E c \in Cfgs : s = InitOf(c)) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
Bound == s.n <= MaxReq
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
Sent == obs'[3] # "0 requests"
UntrustedGetsNothing == [][op'.n = "req" /\ ~Trusted(s.c) => ~Sent]_vars
NoProxyMeansDirect == [][op'.n = "req" /\ s.c.proxy = "-" /\ s.c.noproxy /\ Sent => obs'[5] = "direct"]_vars
SentOnce == [][op'.n = "req" => obs'[3] \in {"0 requests", "1 requests"}]_vars
========================================================================================
