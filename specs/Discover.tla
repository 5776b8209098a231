------------------------------------- MODULE Discover -------------------------------------
(* Listing the remote pools and resuming them with their pipelines (C24).               *)
(* A server holds shells, each with commands that have len outputs, pos of which were   *)
(* delivered.  A handle is a RunspacePool object of the client: listed, or opened by    *)
(* itself.  What one handle received, no other one receives.                            *)
(* configuration: sequence of [id, uri, cmds : sequence of [id, len]]                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs, MaxHandles, MaxPipes, MaxBegin, Counts
VARIABLES s, op, obs

InitOf(c) == [c |-> c, sh |-> [i \in 1..Len(c) |-> [id |-> c[i].id, uri |-> c[i].uri, cmds |-> [j \in 1..Len(c[i].cmds) |-> [id |-> c[i].cmds[j].id, len |-> c[i].cmds[j].len, pos |-> 0, end |-> "-", gone |-> FALSE]]]], hs |-> <<>>]
Join(q, sep) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o sep \o x, "", q)
\* ---- what the client shows
Pipe(t, h, p) == LET c == t.sh[h.sh].cmds[p.c] IN c.id \o " " \o p.st \o " " \o (IF p.got = <<>> THEN "nothing" ELSE Join([i \in 1..Len(p.got) |-> ToString(p.got[i])], ","))
Lost(t, h) == SelectSeq([j \in 1..Len(h.ps) |-> [c |-> t.sh[h.sh].cmds[h.ps[j].c].id, st |-> h.ps[j].st]], LAMBDA x : x.st = "Disconnected")
Show(t, h) == t.sh[h.sh].id \o " " \o h.st \o " " \o h.set \o " [" \o Join([j \in 1..Len(h.ps) |-> Pipe(t, h, h.ps[j])], "; ") \o "] disconnected " \o Join([j \in 1..Len(Lost(t, h)) |-> Lost(t, h)[j].c], " ")
See(t) == [i \in 1..Len(t.hs) |-> Show(t, t.hs[i])]
Alive(x) == SelectSeq([j \in 1..Len(x.cmds) |-> j], LAMBDA j : ~x.cmds[j].gone)
Listed(t, i) == [sh |-> i, st |-> "Disconnected", set |-> "?", new |-> TRUE, ps |-> [j \in 1..Len(Alive(t.sh[i])) |-> [c |-> Alive(t.sh[i])[j], st |-> "Disconnected", got |-> <<>>]]]
\* ---- requests
At(t, i) == t.sh[i].id \o " of " \o t.sh[i].uri
ListReqs(t, r) == <<"Enumerate shells">> \o [i \in 1..(IF r = 0 THEN Len(t.sh) ELSE r - 1) |-> "Enumerate commands of " \o t.sh[i].id]

R(r) == IF r = "ok" THEN "ok" ELSE "err:WSManFaultError"
List(t, o) == LET u == IF o.r > 0 THEN t ELSE [t EXCEPT !.hs = @ \o [i \in 1..Len(t.sh) |-> Listed(t, i)]] IN
  [s |-> u, obs |-> <<R(IF o.r = 0 THEN "ok" ELSE "fault")>> \o ListReqs(t, o.r) \o See(u)]
Connect(t, o) == LET h == t.hs[o.h]
                     u == IF o.r # "ok" \/ h.st = "Opened" THEN t
                          ELSE IF h.new THEN [t EXCEPT !.hs[o.h] = [@ EXCEPT !.st = "Opened", !.new = FALSE, !.set = o.set]]
                          ELSE [t EXCEPT !.hs[o.h].st = "Opened"]
                 IN [s |-> u, obs |-> (IF h.st = "Opened" THEN <<"ok">>
                       ELSE <<R(o.r)>> \o IF h.new THEN <<"Connect " \o At(t, h.sh) \o " with SESSION_CAPABILITY CONNECT_RUNSPACEPOOL">> \o (IF o.r = "ok" THEN <<"Receive " \o At(t, h.sh)>> ELSE <<>>)
                            ELSE <<"Reconnect " \o At(t, h.sh)>>) \o See(u)]
Disconnect(t, o) == LET h == t.hs[o.h]
                        u == IF o.r # "ok" \/ h.st = "Disconnected" THEN t
                             ELSE [t EXCEPT !.hs[o.h] = [@ EXCEPT !.st = "Disconnected", !.ps = [j \in 1..Len(@) |-> [@[j] EXCEPT !.st = IF @ = "Running" THEN "Disconnected" ELSE @]]]]
                    IN [s |-> u, obs |-> (IF h.st = "Disconnected" THEN <<"ok">> ELSE <<R(o.r), "Disconnect " \o At(t, h.sh)>>) \o See(u)]
Resume(t, o) == LET h == t.hs[o.h]  p == h.ps[o.p]
                    u == IF o.r = "ok" /\ p.st = "Disconnected" THEN [t EXCEPT !.hs[o.h].ps[o.p].st = "Running"] ELSE t
                IN [s |-> u, obs |-> (IF p.st # "Disconnected" THEN <<"err:InvalidPipelineStateError">>
                      ELSE <<R(o.r), "Connect command " \o t.sh[h.sh].cmds[p.c].id \o " of " \o At(t, h.sh)>>) \o See(u)]
\* the server delivers k further outputs, and the end state o.end unless it is "-"
Poll(t, o) == LET h == t.hs[o.h]  p == h.ps[o.p]  c == t.sh[h.sh].cmds[p.c]
                  g == [i \in 1..o.k |-> c.pos + i]
                  u == IF o.r # "ok" THEN t
                       ELSE [t EXCEPT !.sh[h.sh].cmds[p.c] = [@ EXCEPT !.pos = @ + o.k, !.end = o.end, !.gone = o.end # "-"],
                                      !.hs[o.h].ps[o.p] = [@ EXCEPT !.got = @ \o g, !.st = IF o.end = "-" THEN @ ELSE o.end]]
              IN [s |-> u, obs |-> <<R(o.r), "Receive " \o c.id \o " of " \o At(t, h.sh)>> \o See(u)]
\* the rest of a running pipeline at once (end_invoke), or of a disconnected one (connect)
Finish(t, o) == LET h == t.hs[o.h]  p == h.ps[o.p]  c == t.sh[h.sh].cmds[p.c]
                    g == [i \in 1..(c.len - c.pos) |-> c.pos + i]
                    n == Len(o.cut) + 1
                    u == [t EXCEPT !.sh[h.sh].cmds[p.c] = [@ EXCEPT !.pos = c.len, !.end = "Completed", !.gone = TRUE], !.hs[o.h].ps[o.p] = [@ EXCEPT !.got = @ \o g, !.st = "Completed"]]
                IN [s |-> u, obs |-> <<"ok">> \o (IF p.st = "Disconnected" THEN <<"Connect command " \o c.id \o " of " \o At(t, h.sh)>> ELSE <<>>) \o [i \in 1..n |-> "Receive " \o c.id \o " of " \o At(t, h.sh)]
                      \o <<"returned " \o Join([i \in 1..Len(p.got \o g) |-> ToString((p.got \o g)[i])], ",")>> \o See(u)]
\* a new pipeline of an opened pool
Begin(t, o) == LET h == t.hs[o.h]
                   u == [t EXCEPT !.sh[h.sh].cmds = Append(@, [id |-> o.id, len |-> o.len, pos |-> 0, end |-> "-", gone |-> FALSE]),
                                  !.hs[o.h].ps = Append(@, [c |-> Len(t.sh[h.sh].cmds) + 1, st |-> "Running", got |-> <<>>])]
               IN [s |-> u, obs |-> <<"ok", "Command of " \o At(t, h.sh)>> \o See(u)]
Step(t, o) ==
  CASE o.n = "list" -> List(t, o)
    [] o.n = "connect" -> Connect(t, o)
    [] o.n = "disconnect" -> Disconnect(t, o)
    [] o.n = "resume" -> Resume(t, o)
    [] o.n = "poll" -> Poll(t, o)
    [] o.n = "finish" -> Finish(t, o)
    [] o.n = "begin" -> Begin(t, o)

\* ---- what the server lets happen
HeldBy(t, i) == {k \in 1..Len(t.hs) : t.hs[k].sh = i /\ t.hs[k].st = "Opened"}
Mine(t, o) == t.hs[o.h].st = "Opened"
Useful(t, o) ==
  CASE o.n = "list" -> o.r <= Len(t.sh) + 1 /\ (o.r = 0 => Len(t.hs) + Len(t.sh) <= MaxHandles)
    [] o.n = "connect" -> o.h <= Len(t.hs) /\ (o.r = "ok" => \A k \in HeldBy(t, t.hs[o.h].sh) : k = o.h)
    [] o.n = "disconnect" -> o.h <= Len(t.hs)
    [] o.n = "resume" -> o.h <= Len(t.hs) /\ o.p <= Len(t.hs[o.h].ps) /\ (o.r = "ok" /\ t.hs[o.h].ps[o.p].st = "Disconnected" => Mine(t, o) /\ ~t.sh[t.hs[o.h].sh].cmds[t.hs[o.h].ps[o.p].c].gone)
    [] o.n \in {"poll", "finish"} -> /\ o.h <= Len(t.hs) /\ Mine(t, o) /\ o.p <= Len(t.hs[o.h].ps)
         /\ LET p == t.hs[o.h].ps[o.p]  c == t.sh[t.hs[o.h].sh].cmds[p.c] IN
              /\ ~c.gone /\ p.st \in {"Running"} \cup (IF o.n = "finish" THEN {"Disconnected"} ELSE {})
              /\ o.n = "poll" => c.pos + o.k <= c.len /\ (o.end = "Completed" => c.pos + o.k = c.len) /\ (o.r = "fault" => o.k = 0 /\ o.end = "-")
              /\ o.n = "finish" => \A i \in 1..Len(o.cut) : o.cut[i] <= c.len - c.pos
    [] o.n = "begin" -> o.h <= Len(t.hs) /\ Mine(t, o) /\ Len(t.hs[o.h].ps) < MaxBegin
Ops == [n : {"list"}, r : 0..3] \cup [n : {"connect"}, h : 1..MaxHandles, r : {"ok", "fault"}, set : {"2..5/7"}] \cup [n : {"disconnect"}, h : 1..MaxHandles, r : {"ok", "fault"}]
  \cup [n : {"resume"}, h : 1..MaxHandles, p : 1..MaxPipes, r : {"ok", "fault"}]
  \cup [n : {"poll"}, h : 1..MaxHandles, p : 1..MaxPipes, r : {"ok", "fault"}, k : 0..Counts, end : {"-", "Completed", "Failed"}]
  \cup [n : {"finish"}, h : 1..MaxHandles, p : 1..MaxPipes, cut : {<<>>, <<1>>}]
  \cup [n : {"begin"}, h : 1..MaxHandles, id : {"n1"}, len : {1}]
Init == \E c \in Cfgs : s = InitOf(c) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
\* no output is received twice or out of order: every handle's outputs of a command ascend, and no two handles share one
Got == \A a \in 1..Len(s.hs) : \A p \in 1..Len(s.hs[a].ps) : LET g == s.hs[a].ps[p].got IN
         /\ \A i \in 1..Len(g) - 1 : g[i] < g[i + 1]
         /\ \A b \in 1..Len(s.hs) : \A q \in 1..Len(s.hs[b].ps) :
              (s.hs[a].sh = s.hs[b].sh /\ s.hs[a].ps[p].c = s.hs[b].ps[q].c /\ <<a, p>> # <<b, q>>) => \A i \in 1..Len(g) : \A j \in 1..Len(s.hs[b].ps[q].got) : g[i] # s.hs[b].ps[q].got[j]
\* and none is lost: what was delivered is in some handle
NoLoss == \A i \in 1..Len(s.sh) : \A c \in 1..Len(s.sh[i].cmds) : \A n \in 1..s.sh[i].cmds[c].pos :
         \E a \in 1..Len(s.hs) : s.hs[a].sh = i /\ \E p \in 1..Len(s.hs[a].ps) : s.hs[a].ps[p].c = c /\ \E k \in 1..Len(s.hs[a].ps[p].got) : s.hs[a].ps[p].got[k] = n
OneHolder == \A i \in 1..Len(s.sh) : Cardinality(HeldBy(s, i)) <= 1
RunningIsOpen == \A a \in 1..Len(s.hs) : s.hs[a].st = "Disconnected" => \A p \in 1..Len(s.hs[a].ps) : s.hs[a].ps[p].st # "Running"
HandshakeOnce == [][\A k \in 1..Len(s.hs) : s.hs[k].new # s'.hs[k].new => ~s'.hs[k].new]_vars
==========================================================================================
