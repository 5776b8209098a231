---------------------------------- MODULE Calls ----------------------------------
(* Calls of an opened runspace pool that the server answers by call id.          *)
(* o.n call, o.v value, o.r how the server treats it ("accept", "refuse",        *)
(* "fault": the request is rejected, "lost": the reply cannot be received, so    *)
(* the call is abandoned and the server answers its id later), o.late how the    *)
(* answers to all calls abandoned so far arrive during this call ("none",        *)
(* "acc", "ref"), o.at where they arrive (0 same reply before, 1 an earlier      *)
(* reply, 2 same reply after the answer), o.pre what else arrives first.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Values, Protos, MaxLost
VARIABLES s, op, obs

InitOf(c) == [st |-> "new", proto |-> c.proto, mn |-> 1, mx |-> 1, lost |-> 0]

Show(t) == "min:" \o ToString(t.mn) \o " max:" \o ToString(t.mx)
R(t, out, reqs, ev) == [s |-> t, obs |-> <<out>> \o reqs \o <<"events:" \o ToString(ev), Show(t)>>]

Rejecting(o) == o.r \in {"fault", "lost"}
\* the replies of the server before the call has its own answer
NReplies(t, o) == 1 + (IF o.late # "none" /\ o.at = 1 /\ t.lost > 0 THEN 1 ELSE 0) + (IF o.pre = "event1" THEN 1 ELSE 0)
Rec(k) == [i \in 1..k |-> "Receive"]
Events(o) == IF Rejecting(o) \/ o.pre \notin {"event", "event1"} THEN 0 ELSE 1
\* the server's own initial data is the only message that changes the counts by itself
Pre(t, o) == IF Rejecting(o) \/ o.pre # "init" THEN t ELSE [t EXCEPT !.mn = 11, !.mx = 12]
Settle(t, o) == IF o.late = "none" \/ Rejecting(o) THEN t ELSE [t EXCEPT !.lost = 0]

Call(t, done, msg, ret, o) ==
  LET rq == <<"Send " \o msg \o " ci:fresh">>
      t1 == Settle(Pre(t, o), o)
  IN CASE o.r = "fault" -> R(t, "err:WSManFaultError", rq, 0)
       [] o.r = "lost"  -> R([t EXCEPT !.lost = @ + 1], "err:WSManFaultError", rq \o <<"Receive">>, 0)
       [] o.r = "refuse" /\ o.n # "avail" -> R(t1, "err:InvalidPSRPOperation", rq \o Rec(NReplies(t, o)), Events(o))
       [] OTHER         -> R([t1 EXCEPT !.mn = done.mn, !.mx = done.mx], ret, rq \o Rec(NReplies(t, o)), Events(o))

Open(t) == IF t.st = "open" THEN R(t, "ok", <<>>, 0)
           ELSE R([t EXCEPT !.st = "open"], "ok", <<"Create", "Receive">>, 0)
SetMin(t, o) == IF t.st = "new" THEN R([t EXCEPT !.mn = o.v], "ok", <<>>, 0)
                ELSE IF t.mn = o.v THEN R(t, "ok", <<>>, 0)
                ELSE Call(t, [Pre(t, o) EXCEPT !.mn = o.v], "SET_MIN_RUNSPACES=" \o ToString(o.v), "ok", o)
SetMax(t, o) == IF t.st = "new" THEN R([t EXCEPT !.mx = o.v], "ok", <<>>, 0)
                ELSE IF t.mx = o.v THEN R(t, "ok", <<>>, 0)
                ELSE Call(t, [Pre(t, o) EXCEPT !.mx = o.v], "SET_MAX_RUNSPACES=" \o ToString(o.v), "ok", o)
Reset(t, o) == IF t.st = "new" THEN R(t, "ok", <<>>, 0)
               ELSE IF t.proto < 203 THEN R(t, "err:InvalidPSRPOperation", <<>>, 0)
               ELSE Call(t, Pre(t, o), "RESET_RUNSPACE_STATE", "ok", o)
Avail(t, o) == IF t.st = "new" THEN R(t, "unspecified", <<>>, 0)
               ELSE Call(t, Pre(t, o), "GET_AVAILABLE_RUNSPACES", "ok:" \o ToString(o.v), o)
\* polling a running pipeline receives whatever the server has to say
Poll(t, o) == IF t.st = "new" THEN R(t, "unspecified", <<>>, 0)
              ELSE LET t1 == Settle(Pre(t, o), o) IN R(t1, "ok", <<"Receive">>, Events(o))

Step(t, o) ==
  CASE o.n = "open" -> Open(t)
    [] o.n = "setmin" -> SetMin(t, o)
    [] o.n = "setmax" -> SetMax(t, o)
    [] o.n = "reset" -> Reset(t, o)
    [] o.n = "avail" -> Avail(t, o)
    [] o.n = "poll" -> Poll(t, o)

Ops == {[n |-> n, r |-> r, v |-> v, late |-> l, at |-> a, pre |-> p] :
          n \in {"setmin", "setmax", "avail"}, r \in {"accept", "refuse", "fault", "lost"}, v \in Values,
          l \in {"none", "acc", "ref"}, a \in 0..2, p \in {"-", "event", "event1", "init"}}
   \cup {[n |-> "reset", r |-> r, v |-> 0, late |-> l, at |-> a, pre |-> p] : r \in {"accept", "refuse", "fault", "lost"},
          l \in {"none", "acc", "ref"}, a \in 0..2, p \in {"-", "event", "event1", "init"}}
   \cup {[n |-> "poll", r |-> "accept", v |-> 0, late |-> l, at |-> 0, pre |-> p] : l \in {"none", "acc", "ref"}, p \in {"-", "event", "init"}}
   \cup {[n |-> "open", r |-> "accept", v |-> 0, late |-> "none", at |-> 0, pre |-> "-"]}

\* parameters that make no difference are not enumerated
Useful(t, o) == /\ (t.st = "new" => o.n \in {"open", "setmin", "setmax", "reset"} /\ o.r = "accept")
                /\ (t.lost = 0 \/ Rejecting(o) => o.late = "none")
                /\ (o.late = "none" => o.at = 0)
                /\ (Rejecting(o) => o.pre = "-")
                /\ (o.r = "lost" => t.lost < MaxLost)
                /\ (o.n = "avail" => o.r # "refuse")
                /\ (o.late # "none" => o.pre \in {"-", "event"})

Init == \E p \in Protos : s = InitOf([proto |-> p]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

OnlyAcceptedSetOrInitChanges ==
  [][(s'.mn # s.mn \/ s'.mx # s.mx) => \/ op'.n \in {"setmin", "setmax"} /\ (s.st = "new" \/ op'.r = "accept" \/ op'.pre = "init")
                                       \/ op'.pre = "init"]_vars
RefusedRaises == [][op'.r = "refuse" /\ Len(obs') > 3 => obs'[1] = "err:InvalidPSRPOperation"]_vars
LateAnswersAreInert == [][op'.late # "none" => obs'[1] = Step([s EXCEPT !.lost = 0], op').obs[1]]_vars
AvailChangesNothing == [][op'.n = "avail" /\ op'.pre # "init" => s'.mn = s.mn /\ s'.mx = s.mx]_vars
==============================================================================
