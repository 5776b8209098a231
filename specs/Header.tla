------------------------------------- MODULE Header -------------------------------------
(* One request per operation, and everything it says (C26).                             *)
(* configuration: ssl, port ("-" default), host, v6, path, auth, conn, read (timeouts),  *)
(*   opt (operation timeout), loc, dloc ("-" as loc), size, proxy, noproxy, envproxy,     *)
(*   verify, envca ("-" none): strings                                                  *)
(* operation: n method, uri, opts = sequence of <<name, value, attribute or "-">>,        *)
(*   sels = sequence of <<name, value>>, timeout (0: none given), body "none"/"given"     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs
VARIABLES s, op, obs

InitOf(c) == [c |-> c, n |-> 0]
Xfer == "http://schemas.xmlsoap.org/ws/2004/09/transfer/"
Enum == "http://schemas.xmlsoap.org/ws/2004/09/enumeration/"
Shell == "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/"
Action == [get |-> Xfer \o "Get", put |-> Xfer \o "Put", create |-> Xfer \o "Create", delete |-> Xfer \o "Delete",
           enumerate |-> Enum \o "Enumerate", pull |-> Enum \o "Pull", command |-> Shell \o "Command", connect |-> Shell \o "Connect",
           disconnect |-> Shell \o "Disconnect", receive |-> Shell \o "Receive", reconnect |-> Shell \o "Reconnect", send |-> Shell \o "Send",
           signal |-> Shell \o "Signal", config |-> Xfer \o "Get"]
Url(c) == (IF c.ssl THEN "https://" ELSE "http://") \o (IF c.v6 THEN "[" \o c.host \o "]" ELSE c.host) \o ":"
          \o (IF c.port # "-" THEN c.port ELSE IF c.ssl THEN "5986" ELSE "5985") \o "/" \o c.path
Show(q) == FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE "|") \o FoldLeft(LAMBDA b, y : b \o (IF b = "" THEN "" ELSE "=") \o y, "", x), "", q)
Proxy(c) == IF c.proxy # "-" THEN c.proxy ELSE IF c.noproxy THEN "-" ELSE c.envproxy
Verify(c) == IF c.verify = "true" /\ c.envca # "-" THEN c.envca ELSE c.verify
Auth(c) == IF c.auth = "basic" THEN "Basic dTpw" ELSE "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual"

Step(t, o) == LET c == t.c IN
  [s |-> [t EXCEPT !.n = 1 - t.n], obs |->
   <<"ok", "POST " \o Url(c), "type application/soap+xml;charset=UTF-8", "coding identity", "auth " \o Auth(c),
     "cert " \o (IF c.auth = "certificate" THEN "/c.pem /k.pem" ELSE "-"),
     "verify " \o Verify(c), "proxy " \o Proxy(c),
     "http " \o (IF o.timeout = 0 THEN ToString(c.conn) \o " " \o ToString(c.read) ELSE "longer than the operation"),
     "Action " \o Action[o.n], "DataLocale " \o (IF c.dloc = "-" THEN c.loc ELSE c.dloc), "Locale " \o c.loc,
     "MaxEnvelopeSize " \o ToString(c.size), "MessageID fresh",
     "OperationTimeout PT" \o ToString(IF o.timeout = 0 THEN c.opt ELSE o.timeout) \o "S",
     "ReplyTo anonymous", "ResourceURI " \o (IF o.n = "config" THEN "http://schemas.microsoft.com/wbem/wsman/1/" \o o.uri ELSE o.uri),
     "SessionId same", "To " \o Url(c)>>
   \o (IF Len(o.opts) > 0 THEN <<"OptionSet " \o Show(o.opts)>> ELSE <<>>)
   \o (IF Len(o.sels) > 0 THEN <<"SelectorSet " \o Show(o.sels)>> ELSE <<>>)
   \o <<"must understand Action Address MaxEnvelopeSize " \o (IF Len(o.opts) > 0 THEN "OptionSet " ELSE "") \o "ResourceURI", "body " \o o.body>>]

Opts == {<<>>, <<<<"A", "TRUE", "-">>>>, <<<<"Z", "1", "-">>, <<"A", "b c", "MustComply">>, <<"Z", "2", "-">>>>}
Sels == {<<>>, <<<<"ShellId", "S1">>>>, <<<<"Z", "1">>, <<"A", "2">>>>}
Ops == [n : DOMAIN Action, uri : {"urn:one", "urn:two"}, opts : Opts, sels : Sels, timeout : {0, 1, 60}, body : {"none", "given"}]
Useful(t, o) == /\ o.n = "config" => o.opts = <<>> /\ o.sels = <<>> /\ o.timeout = 0 /\ o.body = "none"
                /\ o.body = "none" => o.n \in {"config", "get", "put", "enumerate", "pull", "delete", "disconnect", "reconnect"}
                /\ o.uri = "urn:two" => o.opts = <<>> /\ o.sels = <<>>
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
\* the endpoint and what it is told is the same whatever was called before
SameEndpoint == [][obs # <<>> => obs'[2] = obs[2] /\ obs'[7] = obs[7] /\ obs'[8] = obs[8]]_vars
OwnTimeout == [][op'.timeout # 0 => obs'[15] = "OperationTimeout PT" \o ToString(op'.timeout) \o "S"]_vars
DefaultTimeout == [][op'.timeout = 0 => obs'[15] = "OperationTimeout PT" \o ToString(s.c.opt) \o "S" /\ obs'[9] = "http " \o ToString(s.c.conn) \o " " \o ToString(s.c.read)]_vars
==========================================================================================
