------------------------------------- MODULE Copy -------------------------------------
(* The receiving end of a file copy (C18): what the remote script accepts.              *)
(* It keeps each input until the next one comes; the last one is the checksum.          *)
(* cfg: size of the file, cap = most characters an input may have                        *)
(* events: call (the pipeline created: script, dest, expand as given), piece (bytes at  *)
(*   offset at, len of them), sum (good: checksum of the whole file), junk, eoi (end of  *)
(*   input), result (what the caller got, given what the remote side reported)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize, Caps
VARIABLES s, op, obs

InitOf(c) == [size |-> c.size, cap |-> c.cap, at |-> "start", off |-> 0, n |-> 0]
B64(n) == 4 * ((n + 2) \div 3)
Bad(t, why) == [s |-> [t EXCEPT !.at = "rejected"], obs |-> <<"rejected: " \o why>>]
Good(t) == [s |-> t, obs |-> <<"accepted">>]

Step(t, o) ==
  CASE t.at = "rejected" -> Bad(t, "before")
    [] o.n = "call" -> IF t.at # "start" THEN Bad(t, "called again")
                       ELSE IF ~(o.script /\ o.dest /\ o.expand) THEN Bad(t, "not the copy script with its arguments")
                       ELSE Good([t EXCEPT !.at = "data"])
    [] o.n = "piece" -> IF t.at # "data" THEN Bad(t, "data out of place")
                        ELSE IF o.at # t.off THEN Bad(t, "data missing or repeated")
                        ELSE IF o.len = 0 /\ t.size > 0 THEN Bad(t, "empty input")
                        ELSE IF B64(o.len) > t.cap THEN Bad(t, "more than fits into a message")
                        ELSE Good([t EXCEPT !.off = @ + o.len, !.n = 1])
    [] o.n = "sum" -> IF t.at # "data" THEN Bad(t, "checksum out of place")
                      ELSE IF t.off # t.size THEN Bad(t, "data missing")
                      ELSE IF t.n = 0 THEN Bad(t, "no data element before the checksum")
                      ELSE IF ~o.good THEN Bad(t, "checksum of something else")
                      ELSE Good([t EXCEPT !.at = "summed"])
    [] o.n = "junk" -> Bad(t, "neither data nor checksum")
    [] o.n = "eoi" -> IF t.at = "summed" THEN Good([t EXCEPT !.at = "end"]) ELSE Bad(t, "ends without the checksum")
    [] o.n = "result" -> IF t.at # "end" THEN Bad(t, "returns before the end of the input")
                         ELSE [s |-> t, obs |-> <<IF o.remote = "ok" THEN "returned the reported path" ELSE "err:WinRMError with the remote error",
                                                  \* warnings are passed on when the copy succeeded
                                                  "warnings " \o (IF o.remote = "ok" THEN ToString(o.warn) ELSE "-")>>]

\* an honest sender of chunks of a fixed length, and single faults of it
Ops == [n : {"call"}, script : {TRUE}, dest : {TRUE}, expand : BOOLEAN]
  \cup [n : {"piece"}, at : 0..MaxSize, len : 0..MaxSize] \cup [n : {"sum"}, good : BOOLEAN] \cup [n : {"junk", "eoi"}]
  \cup [n : {"result"}, remote : {"ok", "error"}, warn : {0, 2}]
Useful(t, o) == o.n = "piece" => o.at + o.len <= t.size
Init == \E z \in 0..MaxSize, c \in Caps : s = InitOf([size |-> z, cap |-> c]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == TRUE
vars == <<s, op, obs>>
\* accepted to the end means every byte, in order, once, and the right checksum
EndHasAll == s.at \in {"summed", "end"} => s.off = s.size
NothingPastSize == s.off <= s.size
ReachesEnd == [][op'.n = "eoi" /\ obs'[1] = "accepted" => s.off = s.size /\ s.at = "summed"]_vars
RejectIsFinal == [][s.at = "rejected" => s'.at = "rejected"]_vars
========================================================================================
