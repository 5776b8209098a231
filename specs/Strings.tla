------------------------------------- MODULE Strings -------------------------------------
(* The escaping of text in CLIXML (C21).  Texts are sequences of Unicode code points.     *)
(* A receiver reads _xHHHH_ as one UTF-16 code unit and everything else as it stands; the  *)
(* lenient receiver also takes an upper case X and eight digits (as .NET does).           *)
(* operations: write (v: the value, got: the text the library wrote, at: where it stands), *)
(*   read (v: a text a server wrote, at), stderr (vs: several error texts on end)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Toks, MaxToks, Places
VARIABLES s, op, obs

InitOf(c) == [v |-> <<>>, n |-> 0]
Hex == [c \in (48..57) \cup (65..70) \cup (97..102) |-> IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87]
IsHex(c) == c \in DOMAIN Hex
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE -1
\* number of characters of the escape sequence that starts at i (0: none)
EscLen(t, i, len) ==
  IF At(t, i) # 95 \/ ~(At(t, i + 1) = 120 \/ (len /\ At(t, i + 1) = 88)) \/ ~(\A k \in 2..5 : IsHex(At(t, i + k))) THEN 0
  ELSE IF At(t, i + 6) = 95 THEN 7
  ELSE IF len /\ (\A k \in 6..9 : IsHex(At(t, i + k))) /\ At(t, i + 10) = 95 THEN 11 ELSE 0
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Num(t, i) == Hex[t[i]] * 4096 + Hex[t[i + 1]] * 256 + Hex[t[i + 2]] * 16 + Hex[t[i + 3]]
RECURSIVE Read(_, _, _)
Read(t, i, len) ==
  IF i > Len(t) THEN <<>>
  ELSE LET k == EscLen(t, i, len) IN
       IF k = 0 THEN Units(t[i]) \o Read(t, i + 1, len)
       ELSE IF k = 7 THEN <<Num(t, i + 2)>> \o Read(t, i + 7, len)
       ELSE <<Num(t, i + 2), Num(t, i + 6)>> \o Read(t, i + 11, len)   \* what it means exactly does not matter here
U16(v) == FoldLeft(LAMBDA a, c : a \o Units(c), <<>>, v)
\* UTF-16 without lone surrogates, U+FFFE, U+FFFF
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343
Sound(us) == \A i \in 1..Len(us) : /\ us[i] \notin {65534, 65535}
                                   /\ Hi(us[i]) => i < Len(us) /\ Lo(us[i + 1])
                                   /\ Lo(us[i]) => i > 1 /\ Hi(us[i - 1])
\* characters that may stand in a document and come out of a parser as they went in
Legal(t) == \A i \in 1..Len(t) : LET c == t[i] IN c \in {9, 10} \/ (c >= 32 /\ c < 55296) \/ (c >= 57344 /\ c < 65534) \/ (c >= 65536 /\ c < 1114112)
\* a text whose meaning no two receivers dispute
Agreed(t) == Read(t, 1, FALSE) = Read(t, 1, TRUE)
Show(us) == FoldLeft(LAMBDA a, u : a \o " " \o ToString(u), "", us)

\* one way of writing a value (the library may choose another one)
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Esc(u) == <<95, 120, Digit(u \div 4096), Digit((u \div 256) % 16), Digit((u \div 16) % 16), Digit(u % 16), 95>>
Write(v) == LET us(i) == Units(v[i]) IN
  FoldLeft(LAMBDA a, i : a \o (IF v[i] = 95 /\ At(v, i + 1) \in {88, 120} THEN Esc(95)
                               ELSE IF v[i] < 32 \/ v[i] \in 127..159 THEN Esc(v[i])
                               ELSE IF v[i] >= 65536 THEN Esc(us(i)[1]) \o Esc(us(i)[2])
                               ELSE <<v[i]>>), <<>>, [i \in 1..Len(v) |-> i])

Step(t, o) ==
  [s |-> t, obs |->
   CASE o.n = "tok" -> <<>>
     [] o.n = "write" -> LET w == U16(o.v) IN
          <<IF ~Legal(o.got) THEN "not a document" ELSE IF Read(o.got, 1, FALSE) = w THEN "receiver reads it" ELSE "receiver reads" \o Show(Read(o.got, 1, FALSE)),
            IF Read(o.got, 1, TRUE) = w THEN "lenient receiver reads it" ELSE "lenient receiver misreads it", "reads back" \o Show(w)>>
     [] o.n = "read" -> <<"read" \o Show(Read(o.v, 1, FALSE))>>
     [] o.n = "stderr" -> <<"read" \o FoldLeft(LAMBDA a, x : a \o Show(Read(x, 1, FALSE)), "", o.vs)>>]

Ops(t) == {[n |-> "tok", tok |-> k] : k \in Toks}
          \cup {[n |-> "write", at |-> p, v |-> t.v, got |-> Write(t.v)] : p \in Places}
          \cup (IF Legal(t.v) /\ Agreed(t.v) /\ Sound(Read(t.v, 1, FALSE)) THEN {[n |-> "read", at |-> p, v |-> t.v] : p \in Places} ELSE {})
Init == s = InitOf([c |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops(s) : IF o.n = "tok" THEN s.n < MaxToks /\ s' = [v |-> s.v \o o.tok, n |-> s.n + 1] /\ obs' = <<>> /\ op' = o
                          ELSE LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
View == s
Dump == op'.n # "tok" => PrintT(ToJson([i |-> FALSE, f |-> 0, o |-> op', x |-> obs', t |-> 0]))
vars == <<s, op, obs>>
\* the reference way of writing is read as what was written, by every receiver
WriteIsRead == [][op'.n = "write" => obs'[1] = "receiver reads it" /\ obs'[2] = "lenient receiver reads it"]_vars
\* text without the two characters that start an escape sequence means itself
PlainIsPlain == [][op'.n = "read" /\ ~(\E i \in 1..Len(op'.v) : op'.v[i] = 95 /\ At(op'.v, i + 1) = 120) => obs'[1] = "read" \o Show(U16(op'.v))]_vars
\* escaping twice is undone twice
Twice == [][op'.n = "write" => LET w == Write(Write(op'.v)) IN Read(w, 1, FALSE) = U16(Write(op'.v))]_vars
==========================================================================================
