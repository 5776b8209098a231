------------------------------------- MODULE Clixml -------------------------------------
(* What a CLIXML document means (C22), as a machine that reads it from start to end.      *)
(* cfg: mode "read" (values as the library hands them out) or "write" (values with the     *)
(*   exact element types, for documents the library wrote)                               *)
(* operations: begin (an Obj: id, name; tn "def"/"ref"/"none" with tid, types), prim       *)
(*   (tag, text, name), tostring (text), into (sec: MS, Props, LST, QUE, STK, DCT, ...),    *)
(*   ref (id, name), end (of the Obj; want: the value meant, for the outermost one in       *)
(*   write mode), odd (anything else)                                                     *)
(* After the end of the outermost element the next document starts from nothing.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Prims, TypeSets, MaxObjs, MaxItems, MaxDepth, MaxEv
VARIABLES s, op, obs

Fresh(m) == [mode |-> m, st |-> <<>>, objs |-> <<>>, tns |-> <<>>, well |-> TRUE]
InitOf(c) == Fresh(c.mode)
Lists == {"System.Object[]", "System.Array", "System.Collections.ArrayList", "System.Int32[]", "System.String[]", "System.Collections.Generic.List`1[[System.Int32, mscorlib]]",
          "System.Collections.ObjectModel.Collection`1[[System.String, mscorlib]]", "System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Object, mscorlib]]"}
Dicts == {"System.Collections.Hashtable", "System.Management.Automation.PSPrimitiveDictionary", "System.Management.Automation.PSBoundParametersDictionary",
          "System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Object, mscorlib]]"}
\* the first type that says what kind of thing it is
RECURSIVE KindOf(_, _)
KindOf(ts, i) == IF i > Len(ts) THEN (IF Len(ts) = 0 THEN "obj" ELSE "unknown")
                 ELSE IF ts[i] \in Lists THEN "LST" ELSE IF ts[i] \in Dicts THEN "DCT" ELSE IF ts[i] = "System.Collections.Queue" THEN "QUE"
                 ELSE IF ts[i] = "System.Collections.Stack" THEN "STK"
                 ELSE IF ts[i] \in {"System.Object", "Deserialized.System.Object", "System.Management.Automation.PSObject"} THEN "obj" ELSE KindOf(ts, i + 1)
Find(q, id) == LET js == {j \in 1..Len(q) : q[j][1] = id} IN IF js = {} THEN 0 ELSE Max(js)
Has(q, id) == Find(q, id) # 0
Ints == {"I32", "I64", "U64", "U32", "I16", "U16", "By", "SB"}
Pre(m, g) == IF m = "write" THEN g \o ":" ELSE IF g \in Ints THEN "i:" ELSE IF g \in {"Sg", "Db"} THEN "f:" ELSE IF g \in {"B", "BA", "G"} THEN g \o ":" ELSE "s:"
\* characters are written as their number
CharOf == ("97" :> "a") @@ ("90" :> "Z") @@ ("60" :> "<")
Prim(m, o) == IF o.tag = "Nil" THEN "nil" ELSE IF o.tag = "C" /\ m = "read" THEN "s:" \o CharOf[o.text] ELSE Pre(m, o.tag) \o o.text
Join(q) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "," \o x, "", q)
\* entries of a dictionary stand as name, value, name, value
Pairs(q) == Join([j \in 1..(Len(q) \div 2) |-> q[2 * j - 1] \o "=" \o q[2 * j]])
Canon(m, f) ==
  IF f.kind = "LST" \/ (f.kind = "STK" /\ m = "read") THEN "[" \o Join(f.items) \o "]" ELSE IF f.kind = "QUE" THEN "Q[" \o Join(f.items) \o "]" ELSE IF f.kind = "STK" THEN "K[" \o Join(f.items) \o "]"
  ELSE IF f.kind = "DCT" THEN "{" \o Pairs(f.items) \o "}"
  ELSE "O(" \o Join(f.types) \o ";" \o f.tostr \o ";" \o Join(f.items) \o ";" \o Pairs(f.ext) \o ";" \o Pairs(f.ada) \o ")"
Top(t) == t.st[Len(t.st)]
Upd(t, f) == [t EXCEPT !.st[Len(t.st)] = f]
\* a value with its name enters the innermost open object
Put(t, name, v) ==
  LET f == Top(t) IN
  IF f.sec = "MS" THEN [Upd(t, [f EXCEPT !.ext = @ \o <<name, v>>]) EXCEPT !.well = @ /\ name # "-"]
  ELSE IF f.sec = "Props" THEN [Upd(t, [f EXCEPT !.ada = @ \o <<name, v>>]) EXCEPT !.well = @ /\ name # "-"]
  ELSE IF f.sec = "DCT" THEN [Upd(t, [f EXCEPT !.items = Append(@, v)]) EXCEPT !.well = @ /\ name = (IF Len(f.items) % 2 = 0 THEN "Key" ELSE "Value")]
  ELSE [Upd(t, [f EXCEPT !.items = Append(@, v)]) EXCEPT !.well = @ /\ f.sec \in {f.kind, "-"} /\ (f.kind # "obj" => f.sec # "-")]
Quiet(t) == [s |-> t, obs |-> <<>>]
Done(t, o, v) == [s |-> Fresh(t.mode),
                  obs |-> <<IF t.mode = "read" THEN "value " \o v ELSE IF ~t.well THEN "not well formed " \o v ELSE IF v = o.want THEN "as written" ELSE "means " \o v>>]

Step(t, o) ==
  CASE o.n = "begin" ->
         LET j == Find(t.tns, o.tid)
             ts == IF o.tn = "def" THEN o.types ELSE IF o.tn = "ref" /\ j # 0 THEN t.tns[j][2] ELSE <<>>
             k == KindOf(ts, 1)
             w == /\ ~Has(t.objs, o.id) /\ (o.tn = "def" => ~Has(t.tns, o.tid) /\ Len(o.types) > 0) /\ (o.tn = "ref" => j # 0) /\ k # "unknown"
             f == [id |-> o.id, name |-> o.name, types |-> ts, kind |-> k, sec |-> "-", tostr |-> "nil", items |-> <<>>, ext |-> <<>>, ada |-> <<>>]
         IN Quiet([t EXCEPT !.st = Append(@, f), !.tns = IF o.tn = "def" THEN Append(@, <<o.tid, o.types>>) ELSE @, !.objs = Append(@, <<o.id, "open">>), !.well = @ /\ w])
    [] o.n = "odd" -> Quiet([t EXCEPT !.well = FALSE])
    [] o.n = "prim" -> IF t.st = <<>> THEN Done(t, o, Prim(t.mode, o)) ELSE Quiet(Put(t, o.name, Prim(t.mode, o)))
    [] o.n = "tostring" -> Quiet([Upd(t, [Top(t) EXCEPT !.tostr = "s:" \o o.text]) EXCEPT !.well = @ /\ Top(t).tostr = "nil"])
    [] o.n = "into" -> Quiet([Upd(t, [Top(t) EXCEPT !.sec = o.sec]) EXCEPT !.well = @ /\ (o.sec \in {"MS", "Props"} \/ o.sec = Top(t).kind)])
    [] o.n = "ref" -> LET j == Find(t.objs, o.id) IN
                      IF t.st = <<>> THEN Done([t EXCEPT !.well = FALSE], o, "ref")
                      ELSE Quiet([Put(t, o.name, IF j = 0 THEN "nothing" ELSE t.objs[j][2]) EXCEPT !.well = @ /\ j # 0])
    [] o.n = "end" -> LET f == Top(t)
                          v == Canon(t.mode, f)
                          up == [t EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.objs[Find(t.objs, f.id)] = <<f.id, v>>, !.well = @ /\ (f.kind = "DCT" => Len(f.items) % 2 = 0)]
                      IN IF Len(t.st) = 1 THEN Done(up, o, v) ELSE Quiet(Put(up, f.name, v))

(* ---- every small document a server can send ---- *)
Name(t) == IF t.st = <<>> THEN "-"
           ELSE LET f == Top(t) IN IF f.sec = "DCT" THEN (IF Len(f.items) % 2 = 0 THEN "Key" ELSE "Value")
                                   ELSE IF f.sec \in {"MS", "Props"} THEN "p" \o ToString(Len(f.ext) + Len(f.ada)) ELSE "-"
IsKey(t) == Name(t) = "Key"
Full(t) == t.st # <<>> /\ LET f == Top(t) IN (f.kind # "obj" /\ f.sec = "-") \/ (f.kind # "obj" /\ f.sec \in {"MS", "Props"})
                                           \/ Len(f.items) >= 2 * MaxItems \/ (f.kind # "DCT" /\ Len(f.items) >= MaxItems) \/ Len(f.ext) + Len(f.ada) >= 2 * MaxItems
Ops(t) ==
  LET room == ~Full(t)
      id == ToString(Len(t.objs)) tid == ToString(Len(t.tns))
      inList == t.st # <<>> /\ Top(t).kind = "LST" /\ Top(t).types[1] # "System.Object[]"
      untyped == IF inList /\ Len(Top(t).items) > 0 THEN {} ELSE {[n |-> "begin", id |-> id, name |-> Name(t), tn |-> "none", tid |-> "-", types |-> <<>>]}
  IN (IF room /\ ~IsKey(t) /\ Len(t.st) < MaxDepth /\ Len(t.objs) < MaxObjs THEN
        untyped \cup {[n |-> "begin", id |-> id, name |-> Name(t), tn |-> "def", tid |-> tid, types |-> x] : x \in {y \in TypeSets : \A j \in 1..Len(t.tns) : t.tns[j][2] # y}}
        \cup {[n |-> "begin", id |-> id, name |-> Name(t), tn |-> "ref", tid |-> t.tns[j][1], types |-> <<>>] : j \in 1..Len(t.tns)} ELSE {})
     \cup (IF room THEN {[n |-> "prim", name |-> Name(t), tag |-> p[1], text |-> p[2]] : p \in {q \in Prims : ~IsKey(t) \/ (q[1] = "S" /\ (Len(Top(t).items) = 0 \/ Top(t).items[1] # Prim(t.mode, [tag |-> "S", text |-> q[2]])))}} ELSE {})
     \cup (IF t.st # <<>> /\ room /\ ~IsKey(t) THEN {[n |-> "ref", id |-> t.objs[j][1], name |-> Name(t)] : j \in {k \in 1..Len(t.objs) : t.objs[k][2] # "open"}} ELSE {})
     \cup (IF t.st # <<>> THEN
             LET f == Top(t) IN
             (IF f.kind # "obj" /\ f.sec = "-" THEN {[n |-> "into", sec |-> f.kind]} ELSE {})
             \cup (IF f.kind = "obj" /\ f.sec = "-" /\ f.tostr = "nil" /\ Len(f.items) = 0 THEN {[n |-> "tostring", text |-> "t"]} ELSE {})
             \cup (IF f.kind = "obj" /\ f.sec = "-" THEN {[n |-> "into", sec |-> x] : x \in {"MS", "Props"}} ELSE {})
             \cup (IF f.kind = "obj" /\ f.sec = "MS" /\ Len(f.ada) = 0 THEN {[n |-> "into", sec |-> "Props"]} ELSE {})
             \cup (IF (f.kind = "obj" \/ f.sec # "-") /\ (f.kind = "DCT" => Len(f.items) % 2 = 0) THEN {[n |-> "end", want |-> "-"]} ELSE {})
           ELSE {})
Init == s = [t |-> Fresh("read"), h |-> <<>>] /\ op = [n |-> "init"] /\ obs = <<>>
Next == /\ Len(s.h) < MaxEv /\ ~(s.h # <<>> /\ s.t.st = <<>>)
        /\ \E o \in Ops(s.t) : LET r == Step(s.t, o) IN s' = [t |-> r.s, h |-> Append(s.h, o)] /\ obs' = r.obs /\ op' = o
View == s
Dump == obs' # <<>> => PrintT(ToJson([h |-> s'.h, x |-> obs']))
vars == <<s, op, obs>>
\* nothing of a finished document is left
StartsAnew == [][obs' # <<>> => s'.t = Fresh(s.t.mode)]_vars
\* ids are never reused within a document, and every document the machine can be given is well formed
DistinctIds == \A j, k \in 1..Len(s.t.objs) : j # k => s.t.objs[j][1] # s.t.objs[k][1]
WellFormed == s.t.well
==========================================================================================
