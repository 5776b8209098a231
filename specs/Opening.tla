---------------------------------- MODULE Opening ----------------------------------
(* What opening a runspace pool tells the server, and what the pool then says of     *)
(* itself. cfg.pools: the settings of every pool of one connection:                  *)
(*   conf configuration name, mn, mx runspaces, apart, threads numbers, host what    *)
(*   the host has (none, noui, noraw, full), win its window title, noprof, idle      *)
(*   seconds (0: not given)                                                          *)
(* ops: open of pool i with application arguments args (a token), answered r (ok,    *)
(*        fault: refused) with versions pv, sv, private data priv, and, when rmin>0, *)
(*        the counts rmin, rmax;                                                     *)
(*      begin of a pipeline of pool i with apartment state apart (-1: none given),   *)
(*        or nested in the last one begun there.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pools, Tokens, Protos, Counts
VARIABLES s, op, obs

Apart == <<"STA", "MTA", "UNKNOWN">>
Threads == <<"Default", "UseNewThread", "ReuseThread", "UseCurrentThread">>
InitOf(c) == [p |-> c.pools, ran |-> [i \in 1..Len(c.pools) |-> FALSE], v |-> [i \in 1..Len(c.pools) |-> "unopened " \o ToString(c.pools[i].mn) \o "-" \o ToString(c.pools[i].mx)]]

B(x) == IF x THEN "T" ELSE "F"
Info(h, win) == "host null:" \o B(h = "none") \o " ui null:" \o B(h \in {"none", "noui"}) \o " raw null:" \o B(h # "full") \o " use runspace host:" \o B(h = "none")
             \o (IF h # "full" THEN " no data" ELSE " color:7 color:0 xy:0,0 xy:1,2 i:25 wh:120,3000 wh:120,50 wh:130,60 wh:250,90 s:" \o win)
Enum(names, k) == names[k + 1] \o "/" \o ToString(k)
Views(t) == [i \in 1..Len(t.v) |-> "pool" \o ToString(i) \o " " \o t.v[i]]
Sent(q, o) == <<"create " \o q.conf \o " own id, in stdin pr out stdout" \o (IF q.idle = 0 THEN "" ELSE " idle PT" \o ToString(q.idle) \o "S"),
                "options" \o (IF q.noprof THEN " WINRS_NOPROFILE=TRUE!" ELSE "") \o " protocolversion=2.3!",
                "capability 2.3 2.0 1.1.0.1",
                "init " \o ToString(q.mn) \o "-" \o ToString(q.mx) \o " " \o Enum(Threads, q.threads) \o " " \o Enum(Apart, q.apart),
                Info(q.host, q.win), "arguments " \o o.args>>

Step(t, o) ==
  LET q == t.p[o.i] IN
  IF o.n = "open" THEN
    IF o.r = "fault" THEN [s |-> t, obs |-> <<"err:WSManFaultError">> \o Sent(q, o) \o Views(t)]
    ELSE LET mn == IF o.rmin > 0 THEN o.rmin ELSE q.mn
             mx == IF o.rmin > 0 THEN o.rmax ELSE q.mx
             t2 == [t EXCEPT !.v[o.i] = "opened " \o ToString(mn) \o "-" \o ToString(mx) \o " versions " \o o.pv \o " " \o o.sv \o " data " \o o.priv]
         IN [s |-> t2, obs |-> <<"ok">> \o Sent(q, o) \o Views(t2)]
  ELSE [s |-> [t EXCEPT !.ran[o.i] = TRUE], obs |-> <<"ok", IF o.n = "nested" THEN "nested pipeline" ELSE "pipeline", "apartment " \o Enum(Apart, IF o.apart = -1 THEN q.apart ELSE o.apart), Info(q.host, q.win)>> \o Views(t)]

Ops(t) == {[n |-> "open", i |-> i, args |-> a, r |-> r, pv |-> v, sv |-> "1.1.0.1", priv |-> d, rmin |-> c[1], rmax |-> c[2], apart |-> -1] :
             i \in 1..Len(t.p), a \in Tokens, r \in {"ok", "fault"}, v \in Protos, d \in {CHOOSE x \in Tokens \ {"none", "{}"} : TRUE}, c \in Counts}
     \cup {[n |-> m, i |-> i, args |-> "", r |-> "ok", pv |-> "", sv |-> "", priv |-> "", rmin |-> 0, rmax |-> 0, apart |-> a] : m \in {"begin", "nested"}, i \in 1..Len(t.p), a \in -1..2}
(* environment contract: a pool is opened once, pipelines are started on open pools *)
Opened(t, i) == SubSeq(t.v[i], 1, 6) = "opened"
Useful(t, o) == IF o.n = "open" THEN ~Opened(t, o.i) ELSE Opened(t, o.i) /\ (o.n = "nested" => t.ran[o.i])

Init == \E c \in Pools : s = InitOf([pools |-> c]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops(s) : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

(* the settings never change, a refused opening changes nothing, one pool does not change another *)
SettingsStay == [][s'.p = s.p]_vars
RefusedChangesNothing == [][op'.n = "open" /\ op'.r = "fault" => s' = s]_vars
OthersStay == [][\A i \in 1..Len(s.p) : i # op'.i => s'.v[i] = s.v[i]]_vars
SameAnnouncementAgain == [][op'.n = "open" /\ op.n = "open" /\ op'.i = op.i /\ op.r = "fault" => SubSeq(obs', 2, 6) = SubSeq(obs, 2, 6)]_vars
====================================================================================
