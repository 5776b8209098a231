-------------------------------------- MODULE Types --------------------------------------
(* Known .NET types and the classes of this library, in both directions (C30).            *)
(*  read   a pipeline puts out o.items, one value each                                    *)
(*  write  a pipeline is started with o.items as the arguments of its command             *)
(*  pass   a pipeline puts out o.items, and they become the arguments of another one      *)
(* an item is [w: what it stands in, from the outside in; ty: a name of the catalogue;    *)
(*   d: the types are written "Deserialized."; vs: the values, each [v: texts, num: the   *)
(*   number of an enumeration, dims: the lengths of an array's dimensions]]               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, CommandTypes
CONSTANTS Exhaust, MaxN
VARIABLES s, op, obs

Sma == "System.Management.Automation."
\* enumerations: <<library class, .NET type, first number, names>>
Enums == [
  Color |-> <<"Color", "System.ConsoleColor", 0, <<"Black", "DarkBlue", "DarkGreen", "DarkCyan", "DarkRed", "DarkMagenta", "DarkYellow", "Gray", "DarkGray", "Blue", "Green", "Cyan", "Red", "Magenta", "Yellow", "White">> >>,
  Origin |-> <<"CommandOrigin", Sma \o "CommandOrigin", 0, <<"Runspace", "Internal">> >>,
  Progress |-> <<"ProgressRecordType", Sma \o "ProgressRecordType", 0, <<"Processing", "Completed">> >>,
  Visibility |-> <<"SessionStateEntryVisibility", Sma \o "SessionStateEntryVisibility", 0, <<"Public", "Private">> >>,
  Apartment |-> <<"ApartmentState", Sma \o "Runspaces.ApartmentState", 0, <<"STA", "MTA", "UNKNOWN">> >>,
  Threads |-> <<"PSThreadOptions", Sma \o "Runspaces.PSThreadOptions", 0, <<"Default", "UseNewThread", "ReuseThread", "UseCurrentThread">> >>,
  Results |-> <<"PipelineResultTypes", Sma \o "Runspaces.PipelineResultTypes", 0, <<"None", "Output", "Error", "Warning", "Verbose", "Debug", "Information", "All", "Null">> >>,
  Method |-> <<"HostMethodIdentifier", Sma \o "Remoting.RemoteHostMethodId", 1,
     <<"GetName", "GetVersion", "GetInstanceId", "GetCurrentCulture", "GetCurrentUICulture", "SetShouldExit", "EnterNestedPrompt", "ExitNestedPrompt", "NotifyBeginApplication",
       "NotifyEndApplication", "ReadLine", "ReadLineAsSecureString", "Write1", "Write2", "WriteLine1", "WriteLine2", "WriteLine3", "WriteErrorLine", "WriteDebugLine",
       "WriteProgress", "WriteVerboseLine", "WriteWarningLine", "Prompt", "PromptForCredential1", "PromptForCredential2", "PromptForChoice", "GetForegroundColor",
       "SetForegroundColor", "GetBackgroundColor", "SetBackgroundColor", "GetCursorPosition", "SetCursorPosition", "GetWindowPosition", "SetWindowPosition", "GetCursorSize",
       "SetCursorSize", "GetBufferSize", "SetBufferSize", "GetWindowSize", "SetWindowSize", "GetWindowTitle", "SetWindowTitle", "GetMaxWindowSize",
       "GetMaxPhysicalWindowSize", "GetKeyAvailable", "ReadKey", "FlushInputBuffer", "SetBufferContents1", "SetBufferContents2", "GetBufferContents", "ScrollBufferContents">> >> ]
\* sets of flags: <<library class, .NET type, names and bits, the whole set and its name>>
Flags == [
  Streams |-> <<"RemoteStreamOptions", Sma \o "Runspaces.RemoteStreamOptions",
     <<<<"AddInvocationInfoToErrorRecord", 1>>, <<"AddInvocationInfoToWarningRecord", 2>>, <<"AddInvocationInfoToDebugRecord", 4>>, <<"AddInvocationInfoToVerboseRecord", 8>>>>, 15, "AddInvocationInfo">>,
  Commands |-> <<"CommandType", Sma \o "CommandTypes", TypeNames, 511, "All">> ]
\* objects: <<library class, .NET type ("" when the protocol gives none), further base types, where the fields stand, <<attribute, name, tag>>...>>
Structs == [
  Coordinates |-> <<"Coordinates", Sma \o "Host.Coordinates", "System.ValueType,System.Object", "Props", <<<<"x", "X", "I32">>, <<"y", "Y", "I32">>>> >>,
  Size |-> <<"Size", Sma \o "Host.Size", "System.ValueType,System.Object", "Props", <<<<"width", "Width", "I32">>, <<"height", "Height", "I32">>>> >>,
  KeyDotNet |-> <<"KeyInfoDotNet", Sma \o "Host.KeyInfo", "System.ValueType,System.Object", "Props",
     <<<<"code", "VirtualKeyCode", "I32">>, <<"character", "Character", "C">>, <<"state", "ControlKeyState", "S">>, <<"key_down", "KeyDown", "B">>>> >>,
  Culture |-> <<"CultureInfo", "System.Globalization.CultureInfo", "System.Object", "Props",
     <<<<"lcid", "LCID", "I32">>, <<"name", "Name", "S">>, <<"display_name", "DisplayName", "S">>, <<"ietf_language_tag", "IetfLanguageTag", "S">>,
       <<"three_letter_iso_name", "ThreeLetterISOLanguageName", "S">>, <<"three_letter_windows_name", "ThreeLetterWindowsLanguageName", "S">>,
       <<"two_letter_iso_language_name", "TwoLetterISOLanguageName", "S">>>> >>,
  Key |-> <<"KeyInfo", "", "", "MS", <<<<"code", "virtualKeyCode", "I32">>, <<"character", "character", "C">>, <<"state", "controlKeyState", "I32">>, <<"key_down", "keyDown", "B">>>> >>,
  Count |-> <<"CommandMetadataCount", "Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", Sma \o "PSCustomObject,System.Object", "MS", <<<<"count", "Count", "I32">>>> >> ]
Prims == [S |-> "System.String", I32 |-> "System.Int32", I64 |-> "System.Int64", B |-> "System.Boolean", G |-> "System.Guid", Version |-> "System.Version", U32 |-> "System.UInt32",
          By |-> "System.Byte", U64 |-> "System.UInt64", I16 |-> "System.Int16", D |-> "System.Decimal", URI |-> "System.Uri", DT |-> "System.DateTime", Db |-> "System.Double"]
ReadTypes == DOMAIN Enums \cup {"Streams", "Coordinates", "Size", "KeyDotNet", "Culture", "Count"} \cup DOMAIN Prims
WriteTypes == DOMAIN Enums \cup DOMAIN Flags \cup {"Coordinates", "Size", "KeyDotNet", "Key", "Culture", "Array"}
Typed == {"array", "jagged", "list", "coll", "rocoll", "dictS", "dictI"}
Loose == {"arraylist", "objects", "objlist", "objcoll", "objrocoll", "hashtable", "primdict", "bounddict", "queue", "stack", "prop"}

FlagText(f, n) == IF n = f[4] THEN f[5] ELSE FoldLeft(LAMBDA a, x : IF Flag(n, x[2]) THEN a \o (IF a = "" THEN "" ELSE ", ") \o x[1] ELSE a, "", f[3])
Name(ty, n) == IF ty \in DOMAIN Enums THEN Enums[ty][4][n - Enums[ty][3] + 1] ELSE FlagText(Flags[ty], n)
Join(q, sep) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, q[1], Tail(q))
Fields(ty, v, k) == Join([i \in DOMAIN Structs[ty][5] |-> Structs[ty][5][i][k] \o "=" \o v[i]], " ")

\* ---- what the caller gets for a value of the server
Got(ty, x) == CASE ty \in DOMAIN Enums -> Enums[ty][1] \o " " \o ToString(x.num) \o " " \o Name(ty, x.num)
                [] ty \in DOMAIN Flags -> Flags[ty][1] \o " " \o ToString(x.num) \o " " \o Name(ty, x.num)
                [] ty \in DOMAIN Structs -> Structs[ty][1] \o " " \o Fields(ty, x.v, 1)
                [] OTHER -> ty \o " " \o x.v[1]
Container(k, q) == CASE k \in {"array", "list", "coll", "rocoll"} -> "[" \o Join(q, "|") \o "]"
                     [] k = "jagged" -> "[[" \o Join(q, "|") \o "]|[]]"       \* an array of arrays: one with the values, an empty one
                     [] k = "dictS" -> "{" \o Join([i \in DOMAIN q |-> "k" \o ToString(i) \o "=" \o q[i]], "|") \o "}"
                     [] k = "dictI" -> "{" \o Join([i \in DOMAIN q |-> ToString(i) \o "=" \o q[i]], "|") \o "}"
Around(k, x) == CASE k \in {"arraylist", "objects", "objlist", "objcoll", "objrocoll", "stack"} -> "[S m|" \o x \o "|I32 7]"
                  [] k = "queue" -> "Q[S m|" \o x \o "|I32 7]"
                  [] k \in {"hashtable", "primdict", "bounddict"} -> "{k=" \o x \o "}"
                  [] k = "prop" -> "<p=" \o x \o ">"
RECURSIVE GotItem(_, _, _)
GotItem(w, ty, vs) == IF w = <<>> THEN Got(ty, vs[1])
                      ELSE IF Head(w) \in Typed THEN Container(Head(w), [i \in DOMAIN vs |-> Got(ty, vs[i])])
                      ELSE Around(Head(w), GotItem(Tail(w), ty, vs))

\* ---- what the server gets for a value of the caller
EnumBases == ",System.Enum,System.ValueType,System.Object"
TypesOf(ty) == IF ty \in {"Key", "Array", "Culture"} THEN "untyped" ELSE Structs[ty][2] \o "," \o Structs[ty][3]
Sent(ty, x) == CASE ty \in DOMAIN Enums -> Enums[ty][2] \o EnumBases \o " '" \o Name(ty, x.num) \o "' I32:" \o ToString(x.num)
                 [] ty \in DOMAIN Flags -> Flags[ty][2] \o EnumBases \o " '" \o Name(ty, x.num) \o "' I32:" \o ToString(x.num)
                 [] ty = "Array" -> "untyped MS mae=[" \o Join(x.v, "|") \o "] mal=[" \o Join([i \in DOMAIN x.dims |-> ToString(x.dims[i])], "|") \o "]"
                 [] OTHER -> TypesOf(ty) \o " " \o Structs[ty][4] \o " " \o Join([i \in DOMAIN Structs[ty][5] |-> Structs[ty][5][i][2] \o "=" \o Structs[ty][5][i][3] \o ":" \o x.v[i]], " ")
RECURSIVE SentItem(_, _, _)
SentItem(w, ty, vs) == IF w = <<>> THEN Sent(ty, vs[1])
                       ELSE IF Head(w) = "array" THEN "[" \o Join([i \in DOMAIN vs |-> Sent(ty, vs[i])], "|") \o "]"
                       ELSE Around(Head(w), SentItem(Tail(w), ty, vs))

InitOf(c) == [out |-> 0]
Step(t, o) == IF o.n \in {"read", "pass"} THEN [s |-> [t EXCEPT !.out = @ + Len(o.items)], obs |-> <<"ok">> \o [i \in DOMAIN o.items |-> GotItem(o.items[i].w, o.items[i].ty, o.items[i].vs)] \o <<ToString(t.out + Len(o.items))>>
                                                    \o (IF o.n = "read" THEN <<>> ELSE <<"ok">> \o [i \in DOMAIN o.items |-> SentItem(o.items[i].w, o.items[i].ty, o.items[i].vs)])]
              ELSE [s |-> t, obs |-> <<"ok">> \o [i \in DOMAIN o.items |-> SentItem(o.items[i].w, o.items[i].ty, o.items[i].vs)] \o <<ToString(t.out)>>]

InRange(ty, x) == CASE ty \in DOMAIN Enums -> x.num - Enums[ty][3] + 1 \in DOMAIN Enums[ty][4]
                    [] ty = "Streams" -> x.num \in 1..15 [] ty = "Commands" -> x.num \in 1..511
                    [] ty \in DOMAIN Structs -> Len(x.v) = Len(Structs[ty][5])
                    [] ty = "Array" -> Len(x.dims) \in 1..3 /\ x.dims[1] > 0 /\ FoldLeft(LAMBDA a, b : a * b, 1, x.dims) = Len(x.v) /\ Len(x.v) > 0
                    [] OTHER -> Len(x.v) = 1
Fine(i, tys, loose) == /\ i.ty \in tys /\ ~(i.d /\ i.ty = "Count")
                       /\ \A j \in DOMAIN i.vs : InRange(i.ty, i.vs[j])
                       /\ \A j \in DOMAIN i.w : i.w[j] \in loose \/ (j = Len(i.w) /\ i.w[j] \in Typed)
                       /\ (i.w = <<>> \/ i.w[Len(i.w)] \notin Typed) => Len(i.vs) = 1
Useful(t, o) == \A j \in DOMAIN o.items : IF o.n = "read" THEN Fine(o.items[j], ReadTypes, Loose) ELSE Fine(o.items[j], IF o.n = "pass" THEN ReadTypes \cap WriteTypes ELSE WriteTypes, {"arraylist", "hashtable", "prop", "queue"}) /\ \A k \in DOMAIN o.items[j].w : o.items[j].w[k] \notin Typed \ {"array"}

\* exploration: each type with each value of an enumeration, on its own, in each container, and in pairs of containers
Num(n) == [v |-> <<>>, num |-> n, dims |-> <<>>]
Txt(q) == [v |-> q, num |-> 0, dims |-> <<>>]
Plain(tag, i) == CASE tag = "I32" -> ToString(i) [] tag = "C" -> "97" [] tag = "B" -> "true" [] OTHER -> "t" \o ToString(i)
Sample(ty) == CASE ty \in DOMAIN Enums -> {Num(n) : n \in Enums[ty][3]..(Enums[ty][3] + Len(Enums[ty][4]) - 1)}
                [] ty = "Streams" -> {Num(n) : n \in 1..15}
                [] ty = "Commands" -> {Num(n) : n \in {1, 2, 8, 256, 511, 510, 10}}
                [] ty = "Array" -> {[v |-> <<"I32:1", "I32:2">>, num |-> 0, dims |-> <<2>>], [v |-> <<"I32:1", "I32:2", "I32:3", "S:x">>, num |-> 0, dims |-> <<2, 2>>],
                                    [v |-> <<"I32:1", "I32:2", "I32:3", "I32:4", "I32:5", "I32:6">>, num |-> 0, dims |-> <<1, 3, 2>>]}
                [] ty \in DOMAIN Structs -> {Txt([i \in DOMAIN Structs[ty][5] |-> Plain(Structs[ty][5][i][3], i)])}
                [] ty = "S" -> {Txt(<<"a">>), Txt(<<"">>)} [] ty = "B" -> {Txt(<<"true">>), Txt(<<"false">>)}
                [] ty = "G" -> {Txt(<<"00000000-0000-0000-0000-00000000000a">>)} [] ty = "DT" -> {Txt(<<"2020-01-01T00:00:00Z">>)} [] ty = "Version" -> {Txt(<<"1.2">>)}
                [] ty = "URI" -> {Txt(<<"http://a/">>)} [] ty \in {"D", "Db"} -> {Txt(<<"1.5">>)} [] OTHER -> {Txt(<<"3">>), Txt(<<"0">>)}
One(n, w, ty, d, vs) == [n |-> n, items |-> <<[w |-> w, ty |-> ty, d |-> d, vs |-> vs]>>]
A(ty) == CHOOSE x \in Sample(ty) : TRUE
Ops == UNION {{One("read", <<>>, ty, FALSE, <<x>>) : x \in Sample(ty)} \cup {One("write", <<>>, ty, FALSE, <<x>>) : x \in IF ty \in WriteTypes THEN Sample(ty) ELSE {}} : ty \in ReadTypes}
  \cup UNION {{One("write", w, ty, FALSE, <<x>>) : x \in Sample(ty)} : ty \in WriteTypes \ ReadTypes, w \in {<<>>, <<"arraylist">>}}
  \cup UNION {{One("pass", <<>>, ty, d, <<x>>) : x \in Sample(ty), d \in BOOLEAN} \cup {One("pass", <<c>>, ty, FALSE, <<A(ty)>>) : c \in {"arraylist", "hashtable", "prop", "array", "queue"}} : ty \in ReadTypes \cap WriteTypes}
  \cup (IF Exhaust THEN {One("read", <<c>>, ty, d, <<A(ty)>>) : c \in Loose, ty \in ReadTypes, d \in BOOLEAN}
     \cup UNION {{One("read", <<c>>, ty, d, q) : c \in Typed, d \in BOOLEAN, q \in {<<>>, <<A(ty)>>, <<A(ty), A(ty)>>}} : ty \in ReadTypes}
     \cup {One("read", <<b, c>>, ty, FALSE, <<A(ty)>>) : b \in Loose, c \in Loose \cup Typed, ty \in {"Color", "Size", "I32"}}
     \cup {One("write", <<c>>, ty, FALSE, <<A(ty)>>) : c \in {"arraylist", "hashtable", "prop", "array", "queue"}, ty \in WriteTypes} ELSE {})
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops : LET r == Step(s, o) IN Useful(s, o) /\ s' = r.s /\ obs' = r.obs /\ op' = o
Bound == s.out <= MaxN
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
WritingKeeps == [][op'.n = "write" => s' = s]_vars
OneEach == [][Len(obs') = IF op'.n = "pass" THEN 2 * Len(op'.items) + 3 ELSE Len(op'.items) + 2]_vars
===========================================================================================
