---------------------------------- MODULE Envelope ----------------------------------
(* The envelope size of one connection shared by pools, and what they send under it. *)
(* Default is the size of a connection whose user set none.  o.n:                    *)
(*   set v      the user sets the size          config v  it is read from the server *)
(*   new p      a pool is made                  open p v  it is opened, the server   *)
(*   send p     a pipeline with a large script            announcing protocol v      *)
(*   small p    a small pool call                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts, Sets, Protos, NP
VARIABLES s, op, obs
Default == 153600
Raised == 512000

\* base: the size a pool cuts its fragments for
InitOf(c) == [size |-> c.size, ps |-> [p \in 1..NP |-> [st |-> "none", base |-> 0]]]
R(t, out, ann) == [s |-> t, obs |-> <<out>> \o ann \o <<"size:" \o ToString(t.size)>>]
Ann(v) == <<"announced:" \o ToString(v)>>

Set(t, o) == [t EXCEPT !.size = o.v]
New(t, o) == [t EXCEPT !.ps[o.p] = [st |-> "new", base |-> t.size]]
Negotiated(t, v) == IF v >= 202 /\ t.size = Default THEN Raised ELSE t.size
\* the create request and the remaining opening fragments go out before the server's answer
Open(t, o) == LET z == Negotiated(t, o.v) IN
   R([t EXCEPT !.size = z, !.ps[o.p] = [st |-> "open", base |-> IF z # t.size THEN z ELSE @.base]], "ok", Ann(t.size))
Wide(t, o) == IF t.ps[o.p].base >= 204800 THEN "wide" ELSE "narrow"

Step(t, o) ==
  CASE o.n = "set"    -> R(Set(t, o), "ok", <<>>)
    [] o.n = "config" -> R(Set(t, o), "ok", Ann(t.size))
    [] o.n = "new"    -> R(New(t, o), "ok", <<>>)
    [] o.n = "open"   -> Open(t, o)
    [] o.n = "send"   -> R(t, "ok " \o Wide(t, o), Ann(t.size))
    [] o.n = "small"  -> R(t, "ok", Ann(t.size))

Ops == {[n |-> n, p |-> 0, v |-> v] : n \in {"set", "config"}, v \in Sets}
  \cup {[n |-> "new", p |-> p, v |-> 0] : p \in 1..NP}
  \cup {[n |-> "open", p |-> p, v |-> v] : p \in 1..NP, v \in Protos}
  \cup {[n |-> n, p |-> p, v |-> 0] : p \in 1..NP, n \in {"send", "small"}}
\* lowering the size below what an existing pool was made for is outside the contract
Useful(t, o) ==
  CASE o.n \in {"set", "config"} -> \A p \in 1..NP : t.ps[p].st = "none" \/ o.v >= t.ps[p].base
    [] o.n = "new"  -> t.ps[o.p].st = "none"
    [] o.n = "open" -> t.ps[o.p].st = "new"
    [] OTHER        -> t.ps[o.p].st = "open"

Init == (\E z \in Starts : s = InitOf([size |-> z])) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

NeverOverridesUser == [][s.size # Default /\ op'.n \notin {"set", "config"} => s'.size = s.size]_vars
RaisedOnlyByNegotiation == [][s'.size # s.size /\ op'.n \notin {"set", "config"} => op'.n = "open" /\ op'.v >= 202 /\ s'.size = Raised]_vars
Negotiates == [][op'.n = "open" /\ op'.v >= 202 /\ s.size = Default => s'.size = Raised /\ s'.ps[op'.p].base = Raised]_vars
FragmentsFit == \A p \in 1..NP : s.ps[p].base <= s.size
=====================================================================================
