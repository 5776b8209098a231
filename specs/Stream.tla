---------------------------------- MODULE Stream ----------------------------------
(* Delivery of the server's messages to the pipelines of a pool and to the pool.  *)
(* Message number m of the run is the m-th one the server starts to send.  An op  *)
(* carries replies: each reply is a sequence of items [k kind, p part, x index]:  *)
(*   p = "w"  the whole message is in this reply (in one or more fragments)       *)
(*   p = "a"  only its first fragments; it stays pending on this receive stream   *)
(*   p = "b"  the rest of the x-th pending message of this receive stream         *)
(* A reply with t = 1 is an operation timeout instead (t = 2: another fault).     *)
(* Receive stream 0 is the pool's own, stream i that of pipeline i.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxMsgs, MaxPend, Kinds, Found
VARIABLES s, op, obs

StreamKinds == <<"out", "error", "warning", "verbose", "debug", "information", "progress">>
States == {"sRunning", "sStopping", "sCompleted", "sCompletedE", "sFailed", "sFailedE", "sStopped", "sStoppedE"}
NameOf(k) == CASE k \in {"sFailed", "sFailedE"} -> "Failed" [] k \in {"sStopped", "sStoppedE"} -> "Stopped"
               [] k = "sRunning" -> "Running" [] k = "sStopping" -> "Stopping" [] OTHER -> "Completed"
PoolKinds == {"event", "appdata", "init", "cap", "unsup", "poolwarn", "sClosed", "sBroken"}

EmptyStreams == [k \in 1..7 |-> <<>>]
InitOf(c) == [n |-> 0, pool |-> IF c.found THEN "Disconnected" ELSE "new", ev |-> <<>>, app |-> 0, cnt |-> 0, cap |-> 0, warn |-> <<>>, opts |-> 0,
              pend |-> [i \in 0..N |-> <<>>],
              ps |-> [i \in 1..N |-> [st |-> "NotStarted", err |-> FALSE, str |-> EmptyStreams, used |-> FALSE]]]

KIx(k) == CHOOSE i \in 1..7 : StreamKinds[i] = k

\* message m of kind k takes effect when received on stream i (0 = pool)
Deliver(t, i, k, m) ==
  CASE k = "event"   -> [t EXCEPT !.ev = Append(@, m)]
    [] k = "appdata" -> [t EXCEPT !.app = m]
    [] k = "init"    -> [t EXCEPT !.cnt = m]
    [] k = "cap"     -> [t EXCEPT !.cap = m]
    [] k = "sOpened" -> [t EXCEPT !.pool = "Opened"]
    [] k = "sClosed" -> [t EXCEPT !.pool = "Closed"]
    [] k = "sBroken" -> [t EXCEPT !.pool = "Broken"]
    [] k = "unsup"   -> t
    [] i = 0 /\ k \in {"warning", "poolwarn"} -> [t EXCEPT !.warn = Append(@, m)]
    [] i = 0         -> t                                   \* pipeline messages do not belong here
    [] k \in States  -> LET t1 == [t EXCEPT !.ps[i].st = NameOf(k), !.ps[i].err = @ \/ NameOf(k) = "Failed"] IN
                        IF k \in {"sFailedE", "sStoppedE", "sCompletedE"} THEN [t1 EXCEPT !.ps[i].str[2] = Append(@, m)] ELSE t1
    [] OTHER         -> [t EXCEPT !.ps[i].str[KIx(k)] = Append(@, m)]

Without(q, x) == SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q))
Item(t, i, it) ==
  CASE it.p = "w" -> Deliver([t EXCEPT !.n = @ + 1], i, it.k, t.n + 1)
    [] it.p = "a" -> [t EXCEPT !.n = @ + 1, !.pend[i] = Append(@, <<it.k, t.n + 1>>)]
    [] OTHER      -> IF it.x > Len(t.pend[i]) THEN t
                     ELSE LET q == t.pend[i][it.x] IN Deliver([t EXCEPT !.pend[i] = Without(@, it.x)], i, q[1], q[2])
RECURSIVE Reply(_, _, _)
Reply(t, i, items) == IF items = <<>> THEN t ELSE Reply(Item(t, i, Head(items)), i, Tail(items))

RECURSIVE Nums(_)
Nums(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Nums(Tail(q))
RECURSIVE Str(_, _)
Str(str, k) == IF k > 7 THEN "" ELSE " " \o StreamKinds[k] \o "[" \o Nums(str[k]) \o " ]" \o Str(str, k + 1)
ShowP(t) == [i \in 1..N |-> "p" \o ToString(i) \o " " \o t.ps[i].st \o (IF t.ps[i].err THEN " had_errors" ELSE "") \o Str(t.ps[i].str, 1)]
ShowPool(t) == "pool " \o t.pool \o " app:" \o ToString(t.app) \o " init:" \o ToString(t.cnt) \o " cap:" \o ToString(t.cap)
               \o " events[" \o Nums(t.ev) \o " ] warnings[" \o Nums(t.warn) \o " ]"
R(t, out, nreq) == [s |-> [t EXCEPT !.warn = <<>>], obs |-> <<out, "receives:" \o ToString(nreq), ShowPool(t)>> \o ShowP(t)]

(* replies are consumed one per receive until the call is satisfied               *)
RECURSIVE Run(_, _, _, _, _, _)
\* Done(t) is decided by name: "one" after one reply, "ended" when pipeline i is not running,
\* "opened" when the pool is opened
Run(t, i, reps, goal, cnt, out) ==
  IF reps = <<>> THEN R(t, "starved", cnt)
  ELSE LET r == Head(reps) IN
       IF r.t = 2 \/ (r.t = 1 /\ i = 0) THEN R(t, "err:WSManFaultError", cnt + 1)
       ELSE LET t1 == IF r.t = 1 THEN t ELSE Reply(t, i, r.items) IN
            IF t1.pool = "Broken" THEN R(t1, "err:InvalidPSRPOperation", cnt + 1)
            ELSE IF \/ goal = "one"
               \/ (goal = "ended" /\ t1.ps[i].st # "Running")
               \/ (goal = "opened" /\ t1.pool = "Opened")
            THEN R(t1, IF goal = "ended" THEN "ok:[" \o Nums(t1.ps[i].str[1]) \o " ]" ELSE "ok", cnt + 1)
            ELSE Run(t1, i, Tail(reps), goal, cnt + 1, out)

Step(t, o) ==
  CASE o.n = "open"  -> Run([t EXCEPT !.pool = "NegotiationSent"], 0, o.reps, "opened", 0, "ok")
    \* the answer of the connect request itself carries messages too, then one reply is received
    [] o.n = "connect" -> Run(Reply(t, 0, o.reps[1].items), 0, Tail(o.reps), "one", 0, "ok")
    [] o.n = "pavail" -> Run(t, 0, o.reps, "one", 0, "ok")
    [] o.n = "begin" -> R([t EXCEPT !.ps[o.i].st = "Running", !.ps[o.i].err = FALSE, !.ps[o.i].used = TRUE], "ok", 0)   \* also run again
    [] o.n = "poll"  -> Run(t, o.i, o.reps, "one", 0, "ok")
    [] o.n = "end"   -> IF t.ps[o.i].st # "Running" THEN R(t, "ok:[" \o Nums(t.ps[o.i].str[1]) \o " ]", 0)
                        ELSE Run(t, o.i, o.reps, "ended", 0, "ok")
    [] o.n = "close" -> R(t, "ok", 0)
    [] o.n = "clear" -> R([t EXCEPT !.ps[o.i].str = EmptyStreams], "ok", 0)

W(k) == [k |-> k, p |-> "w", x |-> 0]
Pieces(t, i) == {[k |-> k, p |-> p, x |-> 0] : k \in {q \in Kinds : IF i > 0 THEN q # "poolwarn" ELSE q \in PoolKinds}, p \in {"w", "a"}}
           \cup {[k |-> "", p |-> "b", x |-> x] : x \in 1..Len(t.pend[i])}
Rep(items) == [t |-> 0, items |-> items]
Flt(n) == [t |-> n, items |-> <<>>]
Op(n, i, reps) == [n |-> n, i |-> i, reps |-> reps]
OpenReps == {<<Rep(<<W("cap"), W("appdata"), W("sOpened")>>)>>, <<Rep(<<W("cap")>>), Rep(<<W("event"), W("appdata")>>), Rep(<<W("sOpened"), W("event")>>)>>}
ConnReps == {<<Rep(<<W("cap"), W("init")>>), Rep(<<W("appdata"), W("sOpened")>>)>>, <<Rep(<<W("cap"), W("init"), W("event"), W("appdata")>>), Rep(<<W("event"), W("sOpened"), W("event")>>)>>}
OpsAt(t) ==
  IF t.pool = "new" THEN {Op("open", 0, r) : r \in OpenReps}
  ELSE IF t.pool = "Disconnected" THEN {Op("connect", 0, r) : r \in ConnReps}
  ELSE {Op("begin", i, <<>>) : i \in 1..N} \cup {Op("clear", i, <<>>) : i \in 1..N} \cup {Op("close", i, <<>>) : i \in 1..N}
  \cup UNION {{Op("poll", i, <<Rep(<<pc>>)>>) : pc \in Pieces(t, i)} : i \in 1..N}
  \cup {Op("poll", i, <<Flt(f)>>) : i \in 1..N, f \in 1..2}
  \cup UNION {{Op("pavail", 0, <<Rep(<<pc>>)>>) : pc \in Pieces(t, 0)}}
  \cup {Op("end", i, r) : i \in 1..N, r \in {<<>>, <<Flt(1), Rep(<<W("out"), W("sCompleted")>>)>>, <<Flt(2)>>, <<Rep(<<W("sFailed"), W("out")>>)>>}}

Final(st) == st \in {"Completed", "Failed", "Stopped"}
Useful(t, o) ==
  \* nothing more is asked of a pool the server closed or broke
  CASE t.pool \in {"Closed", "Broken"} -> o.n = "clear" \/ (o.n = "end" /\ t.ps[o.i].st # "Running")
    [] o.n = "open"  -> t.pool = "new" /\ Step(t, o).obs[1] = "ok"
    [] o.n = "connect" -> t.pool = "Disconnected" /\ Step(t, o).s.pool = "Opened"
    [] o.n = "begin" -> t.pool = "Opened" /\ (t.ps[o.i].st = "NotStarted" \/ Final(t.ps[o.i].st))
    [] o.n = "poll"  -> t.ps[o.i].st \in {"Running", "Stopping"} /\ o.reps # <<>>
    [] o.n = "pavail" -> t.pool = "Opened" /\ o.reps # <<>> /\ o.reps[1].t # 1
    [] o.n = "end"   -> t.ps[o.i].st # "Running" \/ Step(t, o).obs[1] # "starved"
    [] o.n = "close" -> Final(t.ps[o.i].st) /\ t.pend[o.i] = <<>>
    [] o.n = "clear" -> TRUE

Bounded(t) == t.n <= MaxMsgs /\ \A i \in 0..N : Len(t.pend[i]) <= MaxPend
Init == (\E f \in Found : s = InitOf([found |-> f])) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in OpsAt(s) : Useful(s, o) /\ LET r == Step(s, o) IN Bounded(r.s) /\ s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

(*------------------------------ C04/C05 as properties -----------------------------*)
Range(q) == {q[j] : j \in DOMAIN q}
All(t) == UNION {Range(t.ps[i].str[k]) : i \in 1..N, k \in 1..7} \cup Range(t.ev)
ExactlyOnce == \* nothing is in two places, nothing twice in one place
  /\ \A i \in 1..N, k \in 1..7 : Cardinality(Range(s.ps[i].str[k])) = Len(s.ps[i].str[k])
  /\ \A i, j \in 1..N, k, h \in 1..7 : <<i, k>> # <<j, h>> => Range(s.ps[i].str[k]) \cap Range(s.ps[j].str[h]) = {}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
AppendOnly == [][\A i \in 1..N, k \in 1..7 : op'.n = "clear" \/ Prefix(s.ps[i].str[k], s'.ps[i].str[k])]_vars
OnlyTarget == [][\A i \in 1..N : op'.i # i => s'.ps[i] = s.ps[i]]_vars
PendingNotVisible == \A i \in 0..N : \A q \in Range(s.pend[i]) : q[2] \notin All(s)
ErrorsIffFailed == [][\A i \in 1..N : ~s.ps[i].err /\ s'.ps[i].err => \E r \in Range(op'.reps) : \E it \in Range(r.items) : it.k \in {"sFailed", "sFailedE"} \/ it.p = "b"]_vars
FailedHasErrors == \A i \in 1..N : s.ps[i].st = "Failed" => s.ps[i].err
BegunAnew == [][op'.n = "begin" => s'.ps[op'.i].st = "Running" /\ ~s'.ps[op'.i].err]_vars
EndMeansEnded == [][op'.n = "end" /\ obs'[1] # "err:WSManFaultError" => s'.ps[op'.i].st # "Running"]_vars
EventsAppendOnly == [][Prefix(s.ev, s'.ev)]_vars
PoolView(t) == <<t.pool, t.ev, t.app, t.cnt, t.cap>>
HasPool(o) == \E r \in Range(o.reps) : \E it \in Range(r.items) : it.k \in PoolKinds \cup {"sOpened"} \/ it.p = "b"
PoolDataOnlyFromPoolMessages == [][PoolView(s') # PoolView(s) => HasPool(op') \/ op'.n \in {"open", "connect"}]_vars
\* a pool-level message has the same effect on the pool whichever stream it arrives on
PoolMessagesNeedNoPlace == [][op'.n = "poll" => \A k \in PoolKinds \ {"poolwarn"} :
                                 PoolView(Deliver(s, op'.i, k, s.n + 1)) = PoolView(Deliver(s, 0, k, s.n + 1))]_vars
==============================================================================
