-------------------------------- MODULE WireSender --------------------------------
(* Every sender the strict receiver of Wire accepts is lossless. *)
EXTENDS Wire
VARIABLE hist
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>> /\ hist = [asked |-> <<>>, parts |-> <<>>, sent |-> <<>>, done |-> TRUE]
Next == \E o \in Ops :
   LET r == Step(s, o) IN
   /\ r.obs = <<"ok">>
   /\ (o.n = "call" => hist.done /\ s.last < MaxOid)
   /\ (o.n # "call" => ~hist.done)
   /\ s' = r.s /\ obs' = r.obs /\ op' = o
   /\ hist' = CASE o.n = "call" -> [asked |-> o.exp, parts |-> <<>>, sent |-> <<>>, done |-> FALSE]
                [] o.n = "frag" -> [hist EXCEPT !.parts = Append(@, <<o.oid, o.fid, o.st, o.en>>)]
                [] o.n = "msg"  -> [hist EXCEPT !.sent = Append(@, <<o.type, hist.parts>>), !.parts = <<>>]
                [] o.n = "ret"  -> [hist EXCEPT !.done = TRUE]
                [] OTHER -> hist
View == <<s, hist>>
\* an operation the receiver accepts to its end has sent exactly the messages asked for,
\* each as fragments 0..n of one object with the marks on the first and the last only
Whole(p) == /\ Len(p) > 0 /\ \A i \in 1..Len(p) : p[i][1] = p[1][1] /\ p[i][2] = i - 1 /\ p[i][3] = (i = 1) /\ p[i][4] = (i = Len(p))
Lossless == hist.done /\ op.n = "ret" /\ ~op.failed =>
   /\ hist.parts = <<>> /\ Len(hist.sent) = Len(hist.asked)
   /\ \A i \in 1..Len(hist.sent) : hist.sent[i][1] = hist.asked[i] /\ Whole(hist.sent[i][2])
   /\ \A i \in 1..(Len(hist.sent) - 1) : hist.sent[i + 1][2][1][1] = hist.sent[i][2][1][1] + 1
===================================================================================
