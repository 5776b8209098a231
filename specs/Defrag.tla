----------------------------------- MODULE Defrag -----------------------------------
(* Reassembly of the server's fragments.  Message m has K[m] fragments 0..K[m]-1.     *)
(* One op is one receive reply, a sequence of fragments <<m, f>> in any order, also   *)
(* with fragments lost, repeated or exchanged.  Fragments of a message that is        *)
(* already complete are not sent again (object ids are not reused).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, MaxReply
VARIABLES s, op, obs

InitOf(c) == [k |-> c.k, next |-> [m \in 1..Len(c.k) |-> 0], out |-> <<>>, ok |-> TRUE]
RECURSIVE Nums(_)
Nums(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Nums(Tail(q))
R(t, out) == [s |-> t, obs |-> <<out, IF t.ok THEN "delivered[" \o Nums(t.out) \o " ]" ELSE "delivered only whole messages">>]

RECURSIVE Take(_, _)
Take(t, fs) ==
  IF fs = <<>> THEN t
  ELSE LET m == fs[1][1]
           f == fs[1][2] IN
       IF f # t.next[m] THEN [t EXCEPT !.ok = FALSE]
       ELSE Take([t EXCEPT !.next[m] = @ + 1, !.out = IF f + 1 = t.k[m] THEN Append(@, m) ELSE @], Tail(fs))
\* a detected gap ends the conversation: what was delivered before stays unspecified
\* except that it consists of whole messages
Step(t, o) == LET t1 == Take(t, o.fr) IN IF t1.ok THEN R(t1, "ok") ELSE R([t1 EXCEPT !.next = t.next, !.out = <<>>], "err:FragmentError")

Pieces(t) == UNION {{<<m, f>> : f \in 0..(t.k[m] - 1)} : m \in 1..Len(t.k)}
Replies(t) == UNION {[1..n -> Pieces(t)] : n \in 1..MaxReply}
RECURSIVE Fresh(_, _)
Fresh(t, fs) == \* no fragment of a complete message
  IF fs = <<>> THEN TRUE
  ELSE LET m == fs[1][1] IN
       /\ t.next[m] < t.k[m]
       /\ (fs[1][2] # t.next[m] \/ Fresh([t EXCEPT !.next[m] = @ + 1], Tail(fs)))
Useful(t, o) == t.ok /\ Fresh(t, o.fr)

Init == (\E k \in Shapes : s = InitOf([k |-> k])) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E fr \in Replies(s) : LET o == [n |-> "reply", fr |-> fr] IN
          Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

Range(q) == {q[i] : i \in DOMAIN q}
OnceEach == Cardinality(Range(s.out)) = Len(s.out)
WholeOnly == s.ok => \A m \in DOMAIN s.k : (m \in Range(s.out)) = (s.next[m] = s.k[m])
GapIsReported == [][~s'.ok => obs'[1] = "err:FragmentError"]_vars
NothingTakenBack == [][s'.ok => Len(s.out) <= Len(s'.out) /\ SubSeq(s'.out, 1, Len(s.out)) = s.out]_vars
=====================================================================================
