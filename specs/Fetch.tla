------------------------------------- MODULE Fetch -------------------------------------
(* Fetching remote files into a local directory (C19).                                  *)
(* state: the destination: "-" missing or its content                                   *)
(* operation: data = the file's content as the sequence of its chunks (texts standing   *)
(*   for bytes), got = the sequence of chunks that arrives, sum = the content whose     *)
(*   checksum is reported ("?" junk), remote "ok"/"failed"/"none" (no output at all)/    *)
(*   "fault" (a request fails) ; expand ;                                               *)
(*   place of the destination: "there" or a directory that is "missing"                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
VARIABLES s, op, obs

InitOf(c) == [dest |-> c.dest]
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Whole(o) == o.remote = "ok" /\ o.sum = Cat(o.got)
Right(o) == Whole(o) /\ o.place = "there"
Step(t, o) ==
  LET u == IF Right(o) THEN [dest |-> Cat(o.got)] ELSE t IN
  [s |-> u, obs |-> <<IF Right(o) THEN "ok" ELSE IF o.place = "missing" THEN "error" ELSE IF o.remote = "failed" THEN "err:WinRMError with the remote error"
                      ELSE IF o.remote = "fault" THEN "err:WSManFaultError" ELSE IF o.remote = "none" THEN "error" ELSE "err:WinRMError",
                      "asked for the file", "destination " \o u.dest, "temporary files 0", "shell released">>]

Chunks == {"", "a", "b"}
Files == UNION {[1..k -> Chunks] : k \in 0..3}
Ops == [got : Files, sum : {"", "a", "b", "ab", "ba", "aa", "aba", "?"}, remote : {"ok"}, expand : BOOLEAN, place : {"there"}]
  \cup [got : {<<>>, <<"a">>}, sum : {"a"}, remote : {"failed", "none", "fault"}, expand : BOOLEAN, place : {"there"}]
  \cup [got : {<<>>, <<"a", "b">>}, sum : {"", "ab"}, remote : {"ok", "failed", "none", "fault"}, expand : {FALSE}, place : {"missing"}]
Useful(t, o) == TRUE
Init == \E d \in {"-", "", "old"} : s = InitOf([dest |-> d]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == PrintT(ToJson([i |-> op = [n |-> "init"], f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
OnlyVerified == [][s' # s => op'.remote = "ok" /\ s'.dest = op'.sum]_vars
ErrorLeaves == [][obs'[1] # "ok" => s' = s]_vars
========================================================================================
