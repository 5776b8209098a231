------------------------------------ MODULE Host ------------------------------------
(* Host calls of a server, for the pool or one of its pipelines, and what the        *)
(* client's host (a PSHost with or without user interfaces) does and answers.        *)
(*  recv  one receive reply with the calls o.calls; o.via is the pipeline that polls *)
(*        (0: the pool waits for a call response)                                    *)
(*     a call is [to |-> 0 (pool) or pipeline, m |-> method id, ci |-> call id,      *)
(*                a |-> raw arguments, r |-> what the host's method does]            *)
(*     r = "std": the library's own method runs, "void": a user's method that        *)
(*     returns nothing, any other token: a user's method returns that value          *)
(*  begin a pipeline is started: the host describes itself                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Values, Returns, Pairs, MaxSet
VARIABLES s, op, obs

S1 == <<"s">>
Meth == <<
 [n |-> "GetName", a |-> <<>>], [n |-> "GetVersion", a |-> <<>>], [n |-> "GetInstanceId", a |-> <<>>],
 [n |-> "GetCurrentCulture", a |-> <<>>], [n |-> "GetCurrentUICulture", a |-> <<>>], [n |-> "SetShouldExit", a |-> <<"i">>],
 [n |-> "EnterNestedPrompt", a |-> <<>>], [n |-> "ExitNestedPrompt", a |-> <<>>],
 [n |-> "NotifyBeginApplication", a |-> <<>>], [n |-> "NotifyEndApplication", a |-> <<>>],
 [n |-> "ReadLine", a |-> <<>>], [n |-> "ReadLineAsSecureString", a |-> <<>>], [n |-> "Write1", a |-> S1],
 [n |-> "Write2", a |-> <<"i", "i", "s">>], [n |-> "WriteLine1", a |-> <<>>], [n |-> "WriteLine2", a |-> S1],
 [n |-> "WriteLine3", a |-> <<"i", "i", "s">>], [n |-> "WriteErrorLine", a |-> S1], [n |-> "WriteDebugLine", a |-> S1],
 [n |-> "WriteProgress", a |-> <<"l", "progress">>], [n |-> "WriteVerboseLine", a |-> S1], [n |-> "WriteWarningLine", a |-> S1],
 [n |-> "Prompt", a |-> <<"s", "s", "fields">>], [n |-> "PromptForCredential1", a |-> <<"s", "s", "s", "s">>],
 [n |-> "PromptForCredential2", a |-> <<"s", "s", "s", "s", "i", "i">>], [n |-> "PromptForChoice", a |-> <<"s", "s", "choices", "i">>],
 [n |-> "GetForegroundColor", a |-> <<>>], [n |-> "SetForegroundColor", a |-> <<"i">>],
 [n |-> "GetBackgroundColor", a |-> <<>>], [n |-> "SetBackgroundColor", a |-> <<"i">>],
 [n |-> "GetCursorPosition", a |-> <<>>], [n |-> "SetCursorPosition", a |-> <<"xy">>],
 [n |-> "GetWindowPosition", a |-> <<>>], [n |-> "SetWindowPosition", a |-> <<"xy">>],
 [n |-> "GetCursorSize", a |-> <<>>], [n |-> "SetCursorSize", a |-> <<"i">>],
 [n |-> "GetBufferSize", a |-> <<>>], [n |-> "SetBufferSize", a |-> <<"wh">>],
 [n |-> "GetWindowSize", a |-> <<>>], [n |-> "SetWindowSize", a |-> <<"wh">>],
 [n |-> "GetWindowTitle", a |-> <<>>], [n |-> "SetWindowTitle", a |-> S1],
 [n |-> "GetMaxWindowSize", a |-> <<>>], [n |-> "GetMaxPhysicalWindowSize", a |-> <<>>], [n |-> "GetKeyAvailable", a |-> <<>>],
 [n |-> "ReadKey", a |-> <<"i">>], [n |-> "FlushInputBuffer", a |-> <<>>],
 [n |-> "SetBufferContents1", a |-> <<"rect", "cell">>], [n |-> "SetBufferContents2", a |-> <<"xy", "cells">>],
 [n |-> "GetBufferContents", a |-> <<"rect">>], [n |-> "ScrollBufferContents", a |-> <<"rect", "xy", "rect", "cell">>]>>

\* setter id -> store field and the kind of value kept
Store == [m \in {28, 30, 32, 34, 36, 38, 40, 42} |->
  CASE m = 28 -> <<"fg", "color:">> [] m = 30 -> <<"bg", "color:">> [] m = 32 -> <<"cpos", "xy:">> [] m = 34 -> <<"wpos", "xy:">>
    [] m = 36 -> <<"csize", "i:">> [] m = 38 -> <<"bsize", "wh:">> [] m = 40 -> <<"wsize", "wh:">> [] m = 42 -> <<"title", "s:">>]
\* the standard host only implements these
Unimplemented == {7, 8, 11, 12, 23, 24, 25, 26, 46, 50}

Raw0 == [fg |-> "color:7", bg |-> "color:0", cpos |-> "xy:0,0", wpos |-> "xy:1,2", csize |-> "i:25", bsize |-> "wh:120,3000",
         wsize |-> "wh:120,50", title |-> "s:window"]
MaxWin == "wh:130,60"
MaxPhys == "wh:250,90"
\* host: "none", "noui" (no user interface), "noraw" (no raw user interface), "full"
InitOf(c) == [host |-> c.host, raw |-> Raw0, rc |-> "none"]

Void == "void"
Std(t, m) ==   \* value of a library method that only reads
  CASE m = 1 -> "s:hostname" [] m = 2 -> "ver:1.2.3" [] m = 3 -> "g:own id" 
    [] m = 4 -> (IF t.host = "noui" THEN Void ELSE "culture:1033,en-US,English (US),en-US,eng,ENU,en")
    [] m = 5 -> (IF t.host = "noraw" THEN Void ELSE "culture:1036,fr-FR,French,fr,fra,FRA,fr")
    [] m = 43 -> MaxWin [] m = 44 -> MaxPhys [] m = 45 -> "b:false"
    [] m \in {27, 29, 31, 33, 35, 37, 39, 41} -> t.raw[Store[m + 1][1]]
    [] OTHER -> Void
Writes(m, a) ==
  CASE m = 13 -> <<"stdout " \o a[1]>> [] m \in {14, 17} -> <<"stdout " \o a[3] \o (IF m = 17 THEN "/" ELSE "")>>
    [] m = 15 -> <<"stdout /">> [] m = 16 -> <<"stdout " \o a[1] \o "/">> [] m = 18 -> <<"stderr " \o a[1] \o "/">>
    [] m = 19 -> <<"stdout DEBUG: " \o a[1] \o "/">> [] m = 21 -> <<"stdout VERBOSE: " \o a[1] \o "/">>
    [] m = 22 -> <<"stdout WARNING: " \o a[1] \o "/">> [] OTHER -> <<>>

RECURSIVE Args(_, _)
Args(k, a) == IF k = <<>> THEN "" ELSE " " \o Head(k) \o ":" \o Head(a) \o Args(Tail(k), Tail(a))
Who(c) == IF c.to = 0 THEN "pool" ELSE "p" \o ToString(c.to)

\* one call -> <<state, observations>>
Call(t, c) ==
  IF t.host = "none" \/ c.m > 51 THEN <<t, <<>>>>
  ELSE LET M == Meth[c.m]
           std == c.r = "std"
           v == IF std THEN Std(t, c.m) ELSE c.r
           t2 == IF ~std THEN t ELSE IF c.m = 6 THEN [t EXCEPT !.rc = c.a[1]]
                 ELSE IF c.m \in DOMAIN Store THEN [t EXCEPT !.raw[Store[c.m][1]] = Store[c.m][2] \o c.a[1]] ELSE t
           run == <<M.n \o " of " \o Who(c) \o Args(M.a, c.a)>>
           ans == IF v = Void THEN <<>> ELSE <<"answer for " \o Who(c) \o " call " \o ToString(c.ci) \o " " \o M.n \o "/" \o ToString(c.m) \o " " \o v>>
       IN <<t2, run \o (IF std THEN Writes(c.m, c.a) ELSE <<>>) \o ans>>
RECURSIVE Calls(_, _)
Calls(t, q) == IF q = <<>> THEN <<t, <<>>>>
               ELSE LET a == Call(t, Head(q)) b == Calls(a[1], Tail(q)) IN <<b[1], a[2] \o b[2]>>

B(x) == IF x THEN "T" ELSE "F"
Info(t) == "host null:" \o B(t.host = "none") \o " ui null:" \o B(t.host \in {"none", "noui"}) \o " raw null:" \o B(t.host # "full")
           \o " use runspace host:" \o B(t.host = "none")
           \o (IF t.host # "full" THEN " no data" ELSE " " \o t.raw.fg \o " " \o t.raw.bg \o " " \o t.raw.cpos \o " " \o t.raw.wpos \o " " \o t.raw.csize \o " "
               \o t.raw.bsize \o " " \o t.raw.wsize \o " " \o MaxWin \o " " \o MaxPhys \o " " \o t.raw.title)

Step(t, o) ==
  IF o.n = "recv" THEN LET r == Calls(t, o.calls) IN [s |-> r[1], obs |-> <<"ok">> \o r[2] \o <<"exit " \o r[1].rc>>]
  ELSE [s |-> t, obs |-> <<"ok", Info(t)>>]

Supported(t, c) == /\ (c.m < 52 => Len(c.a) = Len(Meth[c.m].a))
                   /\ t.host = "noui" => c.m < 11 \/ c.m > 51
                   /\ t.host = "noraw" => c.m < 27 \/ c.m > 51
                   /\ c.r = "std" => c.m \notin Unimplemented
                   /\ c.r = "std" => \A i \in DOMAIN c.a : c.a[i] # "null"   \* null reaches a user's method only
\* calls for a pipeline come to that pipeline's own stream, calls for the pool to any
Useful(t, o) == o.n = "recv" => \A i \in DOMAIN o.calls : Supported(t, o.calls[i]) /\ o.calls[i].to \in {0, o.via}

\* exploration: single calls of every method, pairs of the ones that keep or return state
ArgOf(k, v) == CASE k = "s" -> (IF v = 1 THEN "a" ELSE IF v = 3 THEN "null" ELSE "")
                 [] k \in {"i", "l"} -> (IF v = 1 THEN "5" ELSE "0")
                 [] k \in {"xy", "wh"} -> (IF v = 1 THEN "3,4" ELSE "0,0")
                 [] k = "rect" -> (IF v = 1 THEN "0,1,2,3" ELSE "-1,-1,-1,-1")
                 [] k \in {"cell", "cells", "fields", "choices", "progress"} -> ToString(v)
CallsOf(m, ts, vs, rs) == {[to |-> t, m |-> m, ci |-> 10 * m + t, a |-> [i \in DOMAIN Meth[m].a |-> ArgOf(Meth[m].a[i], v)], r |-> r] : t \in ts, v \in vs, r \in rs}
Single == UNION {CallsOf(m, 0..NP, IF Meth[m].a = <<>> THEN {1} ELSE Values, Returns) : m \in 1..51}
          \cup {[to |-> t, m |-> m, ci |-> -100, a |-> <<>>, r |-> "std"] : m \in {52, 56}, t \in 0..NP}
Few == IF ~Pairs THEN {} ELSE UNION {CallsOf(m, 0..1, {1}, {"std", "b:false"}) : m \in {1, 35, 36, 16}}
Ops == {[n |-> "recv", via |-> v, calls |-> <<c>>] : v \in 0..NP, c \in Single}
  \cup {[n |-> "recv", via |-> 1, calls |-> <<c, d>>] : c \in Few, d \in Few}
  \cup {[n |-> "begin", via |-> 0, calls |-> <<>>]}
CONSTANTS Hosts
Init == s \in {InitOf([host |-> h]) : h \in Hosts} /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
FewSet == Cardinality({f \in DOMAIN Raw0 : s.raw[f] # Raw0[f]}) <= MaxSet
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

Answers(q) == Cardinality({i \in DOMAIN q : Len(q[i]) > 6 /\ SubSeq(q[i], 1, 6) = "answer"})
NoHostNoEffect == [][s.host = "none" => s' = s /\ (op'.n = "recv" => Len(obs') = 2)]_vars
AtMostOneAnswer == [][op'.n = "recv" => Answers(obs') <= Len(op'.calls)]_vars
GetAfterSet == [][op'.n = "recv" /\ Len(op'.calls) = 1 /\ op'.calls[1].m \in DOMAIN Store /\ op'.calls[1].r = "std" /\ s.host = "full"
                  => Std(s', op'.calls[1].m - 1) = Store[op'.calls[1].m][2] \o op'.calls[1].a[1]]_vars
UserMethodKeepsStore == [][op'.n = "recv" /\ (\A i \in DOMAIN op'.calls : op'.calls[i].r # "std") => s' = s]_vars
HostFixed == [][s'.host = s.host]_vars
=====================================================================================
