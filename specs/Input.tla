----------------------------------- MODULE Input -----------------------------------
(* What reaches the server for the input given to a pipeline.                        *)
(* o.kind: "none"  no input                                                          *)
(*         "one"   a single value o.items[1][2][1]                                   *)
(*         "list"  a list of values o.items[1][2]                                    *)
(*         "gen"   a generator of o.items, each <<"v", <<x>>>> a single value or     *)
(*                 <<"b", <<x, ...>>>> a batch                                       *)
(* Values are written as tokens; the driver turns them into Python values and reads  *)
(* the CLIXML on the wire back into tokens.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Values, MaxItems, MaxBatch
VARIABLES s, op, obs

InitOf(c) == [runs |-> 0]
RECURSIVE Flat(_)
Flat(items) == IF items = <<>> THEN <<>> ELSE Head(items)[2] \o Flat(Tail(items))

Sent(o) == IF o.kind = "none" THEN <<>> ELSE [i \in 1..Len(Flat(o.items)) |-> "input " \o Flat(o.items)[i]] \o <<"end of input">>
Step(t, o) == [s |-> t, obs |-> <<"ok", IF o.kind = "none" THEN "create NoInput=true" ELSE "create NoInput=false">> \o Sent(o) \o <<"all for the own command">>]

Batches == UNION {[1..n -> Values] : n \in 0..MaxBatch}
Items == {<<"b", b>> : b \in Batches} \cup {<<"v", <<v>>>> : v \in Values}
Truthy == {v \in Values : v \notin {"nil", "b:false", "i:0", "s:"}}
Ops == {[n |-> "begin", kind |-> "none", items |-> <<>>]}
  \cup {[n |-> "begin", kind |-> "one", items |-> <<<<"v", <<v>>>>>>] : v \in Truthy}
  \cup {[n |-> "begin", kind |-> "list", items |-> <<<<"b", b>>>>] : b \in Batches \ {<<>>}}
  \cup {[n |-> "begin", kind |-> "gen", items |-> q] : q \in UNION {[1..n -> Items] : n \in 0..MaxItems}}
Useful(t, o) == TRUE

Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
EndOnceAndLast == [][op'.kind # "none" => Count(obs', "end of input") = 1 /\ obs'[Len(obs') - 1] = "end of input"]_vars
EveryElement == [][op'.kind # "none" => Len(obs') = Len(Flat(op'.items)) + 4]_vars
NoneWithout == [][op'.kind = "none" => Len(obs') = 3]_vars
====================================================================================
