------------------------------------- MODULE Winrs -------------------------------------
(* Processes of one remote command shell (C17).                                         *)
(* A reply to a receive: o.r = "data" with o.ch = sequence of <<stream, text>> ("" is   *)
(* an empty chunk), o.st "none"/"Running"/"Pending"/"Done", o.rc ("-" none)             *)
(*   "optimeout": nothing to report yet;  "fault"                                       *)
(* end waits: o.q is the sequence of the replies it will get                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Procs, MaxOut
VARIABLES s, op, obs

None == [st |-> "Pending", begun |-> FALSE, out |-> "", err |-> "", rc |-> "-"]
InitOf(c) == [p \in Procs |-> None]
Cat(ch, n) == FoldLeft(LAMBDA a, x : IF x[1] = n THEN a \o x[2] ELSE a, "", ch)
Got(v, r) == [v EXCEPT !.out = @ \o Cat(r.ch, "stdout"), !.err = @ \o Cat(r.ch, "stderr"), !.rc = r.rc, !.st = IF r.st = "none" THEN "Pending" ELSE r.st]
One(v, r) == IF r.r = "data" THEN Got(v, r) ELSE v
RECURSIVE All(_, _)
All(v, q) == IF q = <<>> \/ v.st = "Done" THEN v ELSE IF Head(q).r = "fault" THEN v ELSE All(One(v, Head(q)), Tail(q))
RECURSIVE Used(_, _)
Used(v, q) == IF q = <<>> \/ v.st = "Done" THEN 0 ELSE IF Head(q).r = "fault" THEN 1 ELSE 1 + Used(One(v, Head(q)), Tail(q))
Fails(v, q) == Used(v, q) > 0 /\ q[Used(v, q)].r = "fault"
Show(v) == <<"state " \o v.st, "out " \o v.out, "err " \o v.err, "rc " \o v.rc>>
Rep(n, x) == [i \in 1..n |-> x]
Fault == <<"err:WSManFaultError">>
Ok == <<"ok">>

Step(t, o) == LET v == t[o.p] IN
  CASE o.n = "begin" ->
         LET w == IF o.r = "ok" THEN [None EXCEPT !.begun = TRUE] ELSE v IN   \* a process that is done can be run again
         [s |-> [t EXCEPT ![o.p] = w], obs |-> (IF o.r = "ok" THEN Ok ELSE Fault) \o <<"Command the executable and arguments of " \o ToString(o.p)>> \o Show(w)]
    [] o.n = "poll" -> LET w == One(v, o.q[1]) IN
         [s |-> [t EXCEPT ![o.p] = w], obs |-> (IF o.q[1].r = "fault" THEN Fault ELSE Ok) \o <<"Receive for " \o ToString(o.p)>> \o Show(w)]
    [] o.n = "end" -> LET w == All(v, o.q) IN
         [s |-> [t EXCEPT ![o.p] = w], obs |-> (IF Fails(v, o.q) THEN Fault ELSE Ok) \o Rep(Used(v, o.q), "Receive for " \o ToString(o.p)) \o Show(w)]
    [] o.n = "send" -> [s |-> t, obs |-> (IF o.r = "ok" THEN Ok ELSE Fault) \o <<"Send for " \o ToString(o.p) \o " stdin " \o o.d \o (IF o.end THEN " End" ELSE "")>> \o Show(v)]
    [] o.n = "signal" -> [s |-> t, obs |-> (IF o.r = "ok" THEN Ok ELSE Fault) \o <<"Signal for " \o ToString(o.p) \o " " \o o.d>> \o Show(v)]

Data(ch, st, rc) == [r |-> "data", ch |-> ch, st |-> st, rc |-> rc]
Chunks == {<<>>, <<<<"stdout", "a">>>>, <<<<"stderr", "c">>, <<"stdout", "">>, <<"stderr", "b">>>>, <<<<"stdout", "e">>, <<"stderr", "d">>, <<"stdout", "e">>>>}
NoData(k) == [r |-> k, ch |-> <<>>, st |-> "none", rc |-> "-"]
Replies == {Data(ch, st, "-") : ch \in Chunks, st \in {"none", "Running"}} \cup {Data(ch, "Done", rc) : ch \in Chunks, rc \in {"-", "0", "7", "-1"}} \cup {NoData("optimeout"), NoData("fault")}
Short == {NoData("optimeout"), NoData("fault"), Data(<<<<"stdout", "c">>>>, "Running", "-"), Data(<<>>, "none", "-")}
Dones == {Data(<<<<"stderr", "a">>, <<"stdout", "">>>>, "Done", "3"), Data(<<>>, "Done", "0")}
Ops == [n : {"begin"}, p : Procs, r : {"ok", "fault"}] \cup {[n |-> "poll", p |-> p, q |-> <<x>>] : p \in Procs, x \in Replies}
  \cup {[n |-> "end", p |-> p, q |-> a \o <<b>>] : p \in Procs, a \in UNION {[1..k -> Short] : k \in 0..2}, b \in Dones}
  \cup [n : {"send"}, p : Procs, d : {"", "ab", "de"}, end : BOOLEAN, r : {"ok", "fault"}]
  \cup [n : {"signal"}, p : Procs, d : {"ctrl_c", "ctrl_break", "Terminate"}, r : {"ok", "fault"}]
Useful(t, o) == LET v == t[o.p] IN
   /\ o.n = "begin" => ~v.begun \/ v.st = "Done"
   /\ o.n # "begin" => v.begun
   /\ o.n = "poll" => v.st # "Done"
   \* waiting for a process that is done asks for nothing
   /\ o.n = "end" /\ v.st = "Done" => Len(o.q) = 1
Bound == \A p \in Procs : Len(s[p].out) + Len(s[p].err) <= MaxOut
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OthersUntouched == [][\A p \in Procs : p # op'.p => s'[p] = s[p]]_vars
OutputGrows == [][op'.n = "begin" \/ \A p \in Procs : IsPrefix2(s[p].out, s'[p].out) /\ IsPrefix2(s[p].err, s'[p].err)]_vars
EndMeansDone == [][op'.n = "end" /\ obs'[1] = "ok" => s'[op'.p].st = "Done"]_vars
DoneIsFinal == [][op'.n = "begin" \/ \A p \in Procs : s[p].st = "Done" => s'[p] = s[p]]_vars
RunAfresh == [][op'.n = "begin" /\ obs'[1] = "ok" => s'[op'.p] = [None EXCEPT !.begun = TRUE]]_vars
==========================================================================================
