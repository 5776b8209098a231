----------------------------------- MODULE Wire -----------------------------------
(* What a strict server sees of one client's message stream.  The events are      *)
(*   call   the client starts an operation that has to send the messages o.exp    *)
(*   req    a request of o.size bytes announcing the envelope size o.ann while    *)
(*          o.lim is in force                                                     *)
(*   frag   a fragment of that request, in order                                  *)
(*   msg    the message just completed is of type o.type; o.same: its content is  *)
(*          what the client was given                                             *)
(*   ret    the operation ended (o.failed: with an error after a rejected request)*)
(* How the client packs fragments into requests is its own choice.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOid, MaxFid
VARIABLES s, op, obs

InitOf(c) == [last |-> 0, cur |-> 0, fid |-> 0, exp |-> <<>>, full |-> FALSE, gap |-> FALSE]
R(t, o) == [s |-> t, obs |-> <<o>>]

Frag(t, o) ==
  IF o.st /= (t.cur = 0) THEN R(t, "start mark on the wrong fragment")
  ELSE IF o.st /\ t.last # 0 /\ (IF t.gap THEN o.oid <= t.last ELSE o.oid # t.last + 1) THEN R(t, "object id does not follow the previous one")
  ELSE IF ~o.st /\ o.oid # t.cur THEN R(t, "fragment of another message inside a message")
  ELSE IF o.fid # t.fid THEN R(t, "fragment ids do not count from zero")
  ELSE IF o.len = 0 THEN R(t, "empty fragment")
  ELSE IF t.full THEN R(t, "fragment before the previous message was taken")
  ELSE R([t EXCEPT !.last = o.oid, !.gap = FALSE, !.cur = IF o.en THEN 0 ELSE o.oid, !.fid = IF o.en THEN 0 ELSE @ + 1, !.full = o.en], "ok")

Msg(t, o) ==
  IF ~t.full THEN R(t, "no message is complete")
  ELSE IF t.exp = <<>> THEN R(t, "message was not asked for")
  ELSE IF Head(t.exp) # o.type THEN R(t, "messages out of order")
  ELSE IF ~o.same THEN R(t, "message content differs")
  ELSE R([t EXCEPT !.exp = Tail(@), !.full = FALSE], "ok")

Step(t, o) ==
  CASE o.n = "call" -> R([t EXCEPT !.exp = o.exp], "ok")
    [] o.n = "req"  -> IF o.size > o.lim THEN R(t, "request larger than the envelope size in force")
                       ELSE IF o.ann # o.lim THEN R(t, "announced envelope size is not the one in force") ELSE R(t, "ok")
    [] o.n = "frag" -> Frag(t, o)
    [] o.n = "msg"  -> Msg(t, o)
    [] o.n = "ret"  -> IF o.failed THEN R([t EXCEPT !.cur = 0, !.fid = 0, !.exp = <<>>, !.full = FALSE, !.gap = TRUE], "ok")   \* ids of unsent messages are used up
                       ELSE IF t.cur # 0 \/ t.full THEN R(t, "message left unfinished")
                       ELSE IF t.exp # <<>> THEN R(t, "message left unsent") ELSE R(t, "ok")

(* -------- exploration: a sender that may emit any fragment at any time -------- *)
Ops == {[n |-> "call", exp |-> e] : e \in {<<"A">>, <<"A", "B">>}}
  \cup {[n |-> "frag", oid |-> i, fid |-> f, st |-> st, en |-> en, len |-> l] :
          i \in 1..MaxOid, f \in 0..MaxFid, st \in BOOLEAN, en \in BOOLEAN, l \in 0..1}
  \cup {[n |-> "msg", type |-> t, same |-> b] : t \in {"A", "B"}, b \in BOOLEAN}
  \cup {[n |-> "req", size |-> z, lim |-> 2, ann |-> a] : z \in 1..3, a \in 2..3}
  \cup {[n |-> "ret", failed |-> b] : b \in BOOLEAN}
===================================================================================
