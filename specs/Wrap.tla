------------------------------------- MODULE Wrap -------------------------------------
(* Which connections encrypt, and what a single exchange looks like.                  *)
(*  setup  a connection is made with the given settings and used for one request;     *)
(*         the server offers the schemes o.offer                                       *)
(*  msg    a request of o.size bytes on an encrypting connection (o.proto)             *)
(*  reply  an encrypted reply of parts with the given sizes; o.wrong is the part with *)
(*         a wrong announced length (0: none), o.style how the boundary is written     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, PartSizes, MaxParts
VARIABLES s, op, obs

InitOf(c) == [proto |-> c.proto]
Auths == {"basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm", "digest", ""}
Encs == {"auto", "always", "never", "maybe", ""}
CanEncrypt == {"credssp", "kerberos", "negotiate", "ntlm"}
Due(o) == o.enc = "always" \/ (o.enc = "auto" /\ ~o.ssl)
Refused(o) == \/ o.auth \notin {"basic", "certificate"} \cup CanEncrypt
              \/ o.enc \notin {"auto", "always", "never"}
              \/ Due(o) /\ o.auth \notin CanEncrypt
              \/ o.auth = "certificate" /\ ~o.ssl
Protocol(o) == CASE o.auth = "credssp" -> "CredSSP" [] o.auth # "credssp" /\ o.offer = "Kerberos" -> "Kerberos" [] OTHER -> "SPNEGO"
\* an offer the authentication can work with
Fits(o) == CASE o.auth = "credssp" -> o.offer = "CredSSP" [] o.auth = "ntlm" -> o.offer = "Negotiate" [] OTHER -> o.offer \in {"Negotiate", "Kerberos"}

Step(t, o) ==
  [s |-> t, obs |->
   CASE o.n = "setup" -> (IF Refused(o) THEN <<"refused", "nothing sent">>
                          ELSE IF Due(o) THEN <<"ok", "encrypted " \o Protocol(o)>> ELSE <<"ok", "clear">>)
     [] o.n = "msg" -> <<"ok", "the server decrypts the message", IF t.proto = "CredSSP" /\ o.size > 16384 THEN "multi" ELSE "single">>
     [] o.n = "reply" -> <<IF o.wrong = 0 THEN "ok, the reply" ELSE "err:WinRMError">>]

Setups == [n : {"setup"}, ssl : BOOLEAN, enc : Encs, auth : Auths, offer : {"Negotiate", "Kerberos", "CredSSP"}]
Useful(t, o) == CASE o.n = "setup" -> Refused(o) \/ ~Due(o) \/ Fits(o)
                  [] o.n = "reply" -> (t.proto = "CredSSP" \/ Len(o.parts) = 1) /\ o.wrong <= Len(o.parts)
                  [] OTHER -> TRUE
Ops == Setups \cup [n : {"msg"}, size : Sizes]
       \cup [n : {"reply"}, parts : UNION {[1..k -> PartSizes] : k \in 1..MaxParts}, wrong : 0..MaxParts, style : {"--", "-- "}, status : {200, 500}]

Init == s \in {InitOf([proto |-> p]) : p \in {"CredSSP", "Kerberos", "SPNEGO"}} /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
NeverClearWhenDue == [][op'.n = "setup" /\ Due(op') => obs'[2] # "clear"]_vars
NeverEncryptedWithNever == [][op'.n = "setup" /\ op'.enc = "never" => obs'[2] \in {"clear", "nothing sent"}]_vars
TlsIsEnoughForAuto == [][op'.n = "setup" /\ op'.enc = "auto" /\ op'.ssl => obs'[2] \in {"clear", "nothing sent"}]_vars
WrongLengthIsError == [][op'.n = "reply" /\ op'.wrong # 0 => obs' = <<"err:WinRMError">>]_vars
=========================================================================================
