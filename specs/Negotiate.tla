------------------------------------- MODULE Negotiate -------------------------------------
(* Authentication by a security context (C23).                                            *)
(* cfg: prov configured provider, via "session" (the auth object on a plain session) or     *)
(*   "wsman", over "http" or the hash of the certificate's signature, cbt, service,         *)
(*   delegate, override ("-": none), wrap                                                  *)
(* operation request: host, first (status of the first reply), offers (schemes in the       *)
(*   challenge), steps of the context [tok, done], replies of the server to each token      *)
(*   [st, tok "yes"/"empty"/"none"]                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs, Offers, Firsts, MaxLen, Stats
VARIABLES s, op, obs

InitOf(c) == [c |-> c, ctx |-> [h1 |-> FALSE, h2 |-> FALSE]]
Schemes == <<"Negotiate", "Kerberos", "NTLM">>
Low == [Negotiate |-> "negotiate", Kerberos |-> "kerberos", NTLM |-> "ntlm"]
Compatible(c, x) == c.prov = "negotiate" \/ x = "Negotiate" \/ Low[x] = c.prov
\* Negotiate first, then Kerberos, then NTLM, among those offered that fit the configuration
Picks(c, o) == SelectSeq(Schemes, LAMBDA x : Compatible(c, x) /\ x \in Range(o.offers))
Protocol(c, x) == IF c.prov = "negotiate" THEN Low[x] ELSE c.prov
Hash(x) == IF x \in {"md5", "sha1", "none"} THEN "sha256" ELSE x
Bound(c) == IF c.cbt /\ c.over # "http" THEN "tls-server-end-point " \o Hash(c.over) ELSE "nothing"
\* the exchange from step i on: what is sent and fed, and which reply is the last (0: the challenge itself)
RECURSIVE Exchange(_, _, _)
Exchange(x, o, i) ==
  IF i > Len(o.steps) THEN [obs |-> <<"more steps">>, last |-> -1]
  ELSE IF o.steps[i].done /\ ~o.steps[i].tok THEN [obs |-> <<>>, last |-> i - 1]
  ELSE IF i > Len(o.replies) THEN [obs |-> <<"more replies">>, last |-> -1]
  ELSE LET a == <<"request " \o x \o " t" \o ToString(i)>> IN
       IF o.replies[i].tok # "yes" THEN [obs |-> a, last |-> i]
       ELSE LET r == Exchange(x, o, i + 1) IN [obs |-> a \o <<"fed s" \o ToString(i)>> \o r.obs, last |-> r.last]
Result(c, st, k) ==
  IF c.via = "session" THEN "got " \o ToString(st) \o " reply " \o ToString(k)
  ELSE IF st = 200 THEN "ok" ELSE IF st = 401 THEN "err:AuthenticationError" ELSE "err:WinRMTransportError"
Context(c, x, h) == "context " \o Protocol(c, x) \o " user pass host " \o (IF c.override = "-" THEN h ELSE c.override) \o " service " \o c.service
                    \o (IF c.delegate THEN " delegate" ELSE "") \o (IF c.wrap THEN " wrapping" ELSE "") \o " bound to " \o Bound(c)
Kept(t) == "contexts" \o (IF t.ctx.h1 THEN " h1" ELSE "") \o (IF t.ctx.h2 THEN " h2" ELSE "")

Step(t, o) ==
  LET c == t.c ps == Picks(c, o) IN
  IF o.first # 401 THEN [s |-> t, obs |-> <<"request", Result(c, o.first, 0), Kept(t)>>]
  ELSE IF ps = <<>> THEN [s |-> t, obs |-> <<"request", "refused", Kept(t)>>]
  ELSE LET x == ps[1]
           e == Exchange(x, o, 1)
           n == [t EXCEPT !.ctx[o.host] = TRUE]
       IN [s |-> n, obs |-> <<"request", Context(c, x, o.host)>> \o e.obs \o <<Result(c, IF e.last = 0 THEN 401 ELSE o.replies[e.last].st, e.last), Kept(n)>>]

StepSet == {[tok |-> TRUE, done |-> FALSE], [tok |-> TRUE, done |-> TRUE], [tok |-> FALSE, done |-> TRUE]}
ReplySet == [st : Stats, tok : {"yes", "empty", "none"}]
\* a script is in contract when the exchange uses all of it and no more; after completion no step is unfinished
Uses(o) == LET e == Exchange("x", o, 1) IN
           /\ e.last # -1 /\ (o.steps = <<>> \/ e.last >= Len(o.replies))
           /\ Len(o.steps) = (IF e.last > 0 /\ o.replies[e.last].tok # "yes" THEN e.last ELSE e.last + 1)
           /\ \A i \in 2..Len(o.steps) : o.steps[i - 1].done => o.steps[i].done
Useful(t, o) == /\ t.c.via = "wsman" => o.host = "h1"
                /\ IF o.first = 401 /\ Picks(t.c, o) # <<>> THEN Uses(o) ELSE o.steps = <<>> /\ o.replies = <<>>
                /\ o.first # 401 => o.offers = <<>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
AllScripts == {p \in Seqs(StepSet, MaxLen + 1) \X Seqs(ReplySet, MaxLen) : Len(p[1]) - Len(p[2]) \in {0, 1}}
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
GoodScripts == {p \in AllScripts : Len(p[1]) = 0 \/ Uses([steps |-> p[1], replies |-> p[2]])}
Next == \E h \in {"h1", "h2"}, f \in Firsts, w \in Offers, p \in GoodScripts :
          LET o == [n |-> "request", host |-> h, first |-> f, offers |-> w, steps |-> p[1], replies |-> p[2]] IN
          Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
SentTokens(x) == Cardinality({i \in 1..Len(x) : \E k \in Range(Schemes), j \in 1..(MaxLen + 1) : x[i] = "request " \o k \o " t" \o ToString(j)})
\* no token goes out when no offered scheme fits
NoCredentials == [][Picks(s.c, op') = <<>> => SentTokens(obs') = 0]_vars
\* one scheme throughout, an offered one that fits
OneScheme == [][SentTokens(obs') > 0 => \E k \in Range(op'.offers) : Compatible(s.c, k) /\ \A i \in 1..Len(obs') : \A k2 \in Range(Schemes), j \in 1..(MaxLen + 1) : obs'[i] = "request " \o k2 \o " t" \o ToString(j) => k2 = k]_vars
\* every token once, in order, and every server token right after it
InOrder == [][\A i \in 1..Len(obs') : \A j \in 2..(MaxLen + 1), k \in Range(Schemes) : obs'[i] = "request " \o k \o " t" \o ToString(j) => obs'[i - 1] = "fed s" \o ToString(j - 1)]_vars
Rejected == [][s.c.via = "wsman" /\ obs'[Len(obs') - 1] = "ok" => (op'.first = 200 \/ op'.replies[Len(op'.replies)].st = 200)]_vars
============================================================================================
