------------------------------------- MODULE Records -----------------------------------
(* What the records in a pipeline's streams say (C29).                                    *)
(* operation rec: p pipeline, kind error/warning/verbose/debug/progress/information/      *)
(*   failure (the error of a failed pipeline), O... (a record of that kind that the       *)
(*   pipeline puts out as a value), text (of the whole record, "-" none),      *)
(*   fs = sequence of [w: name on the wire, v: value as a sequence of texts, nil: the     *)
(*   server sent it as null; num: flags]; an optional field may be left out;              *)
(*   on: the record is then sent on, as an argument or as input of another pipeline ("-"  *)
(*   not): it says there what it said when it was received                                *)
(* operation made: kind, fs, on: a record made here (a warning, verbose or debug record    *)
(*   knows no full invocation), sent to a pipeline: says what it was made with            *)
(* catalogue: <<attribute, name on the wire, type, may be left out>>                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, CommandTypes
CONSTANTS NP, Singles, MaxRec
VARIABLES s, op, obs

Inv == << <<"invocation_name", "InvocationInfo_InvocationName", "S", TRUE>>, <<"invocation_bound_parameters", "InvocationInfo_BoundParameters", "DCT", TRUE>>,
  <<"invocation_unbound_arguments", "InvocationInfo_UnboundArguments", "LA", TRUE>>, <<"invocation_command_origin", "InvocationInfo_CommandOrigin", "origin", TRUE>>,
  <<"invocation_expecting_input", "InvocationInfo_ExpectingInput", "B", TRUE>>, <<"invocation_line", "InvocationInfo_Line", "S", TRUE>>,
  <<"invocation_offset_in_line", "InvocationInfo_OffsetInLine", "I32", TRUE>>, <<"invocation_position_message", "InvocationInfo_PositionMessage", "S", TRUE>>,
  <<"invocation_script_name", "InvocationInfo_ScriptName", "S", TRUE>>, <<"invocation_script_line_number", "InvocationInfo_ScriptLineNumber", "I32", TRUE>>,
  <<"invocation_history_id", "InvocationInfo_HistoryId", "I64", TRUE>>, <<"invocation_pipeline_length", "InvocationInfo_PipelineLength", "I32", TRUE>>,
  <<"invocation_pipeline_position", "InvocationInfo_PipelinePosition", "I32", TRUE>>, <<"invocation_pipeline_iteration_info", "InvocationInfo_PipelineIterationInfo", "LI", TRUE>>,
  <<"command_type", "CommandInfo_CommandType", "types", TRUE>>, <<"command_definition", "CommandInfo_Definition", "S", TRUE>>,
  <<"command_name", "CommandInfo_Name", "S", TRUE>>, <<"command_visibility", "CommandInfo_Visibility", "visibility", TRUE>> >>
Err == << <<"exception", "Exception", "exception", TRUE>>, <<"target_object", "TargetObject", "S", TRUE>>, <<"invocation", "SerializeExtendedInfo", "B", FALSE>>,
  <<"invocation_info", "InvocationInfo", "info", TRUE>>, <<"fq_error", "FullyQualifiedErrorId", "S", FALSE>>, <<"category", "ErrorCategory_Category", "I32", FALSE>>,
  <<"activity", "ErrorCategory_Activity", "S", TRUE>>, <<"reason", "ErrorCategory_Reason", "S", TRUE>>, <<"target_name", "ErrorCategory_TargetName", "S", TRUE>>,
  <<"target_type", "ErrorCategory_TargetType", "S", TRUE>>, <<"message", "ErrorCategory_Message", "S", TRUE>>, <<"details_message", "ErrorDetails_Message", "S", TRUE>>,
  <<"action", "ErrorDetails_RecommendedAction", "S", TRUE>>, <<"script_stacktrace", "ErrorDetails_ScriptStackTrace", "S", TRUE>>,
  <<"pipeline_iteration_info", "PipelineIterationInfo", "LI", TRUE>> >> \o Inv
Info == << <<"message", "InformationalRecord_Message", "S", FALSE>>, <<"invocation", "InformationalRecord_SerializeInvocationInfo", "B", FALSE>>,
  <<"pipeline_iteration_info", "InformationalRecord_PipelineIterationInfo", "LI", TRUE>> >> \o Inv
Prog == << <<"activity", "Activity", "S", FALSE>>, <<"activity_id", "ActivityId", "I32", FALSE>>, <<"description", "StatusDescription", "S", FALSE>>,
  <<"current_operation", "CurrentOperation", "S", FALSE>>, <<"parent_activity_id", "ParentActivityId", "I32", FALSE>>, <<"percent_complete", "PercentComplete", "I32", FALSE>>,
  <<"progress_type", "Type", "progress", FALSE>>, <<"seconds_remaining", "SecondsRemaining", "I32", FALSE>> >>
Information == << <<"message_data", "MessageData", "S", FALSE>>, <<"source", "Source", "S", FALSE>>, <<"time_generated", "TimeGenerated", "DT", FALSE>>, <<"tags", "Tags", "LS", FALSE>>,
  <<"user", "User", "S", FALSE>>, <<"computer", "Computer", "S", FALSE>>, <<"pid", "ProcessId", "U32", FALSE>>, <<"native_thread_id", "NativeThreadId", "U32", FALSE>>,
  <<"managed_thread_id", "ManagedThreadId", "U32", FALSE>>, <<"write_information_stream", "WriteInformationStream", "B", TRUE>> >>
Catalogue == [error |-> Err, failure |-> Err, warning |-> Info, verbose |-> Info, debug |-> Info, progress |-> Prog, information |-> Information,
              Oerror |-> Err, Owarning |-> Info, Overbose |-> Info, Odebug |-> Info, Oinformation |-> Information]
Kinds == DOMAIN Catalogue
Outs == {"Oerror", "Owarning", "Overbose", "Odebug", "Oinformation"}
Stream(k) == IF k = "failure" THEN "error" ELSE IF k \in Outs THEN "output" ELSE k
Streams == {Stream(k) : k \in Kinds}

InitOf(c) == [n |-> [p \in 1..NP |-> [k \in Streams |-> 0]], failed |-> [p \in 1..NP |-> FALSE]]
Join(q) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "|" \o x, q[1], Tail(q))
Pick(q, t) == IF t = q[1] THEN q[2] ELSE IF t = q[3] THEN q[4] ELSE "?"
Val(ty, f) ==
  IF f.nil THEN "-"
  ELSE CASE ty \in {"LS", "LI", "LA"} -> "[" \o Join(f.v) \o "]"
         [] ty = "DCT" -> "{" \o Join(f.v) \o "}"
         [] ty = "types" -> ToString(f.num) \o " " \o TypeText(f.num)
         [] ty = "origin" -> f.v[1] \o " " \o Pick(<<"0", "Runspace", "1", "Internal">>, f.v[1])
         [] ty = "visibility" -> f.v[1] \o " " \o Pick(<<"0", "Public", "1", "Private">>, f.v[1])
         [] ty = "progress" -> f.v[1] \o " " \o Pick(<<"0", "Processing", "1", "Completed">>, f.v[1])
         [] OTHER -> f.v[1]
Type(k) == CASE k \in {"error", "Oerror"} -> " an ErrorRecord" [] k \in {"warning", "Owarning"} -> " a WarningRecord" [] k \in {"verbose", "Overbose"} -> " a VerboseRecord"
             [] k \in {"debug", "Odebug"} -> " a DebugRecord" [] k \in {"information", "Oinformation"} -> " an InformationRecord" [] k = "failure" -> " an ErrorRecord" [] OTHER -> ""
Find(o, w) == LET x == SelectSeq(o.fs, LAMBDA f : f.w = w) IN x
Said(o, c) == c[1] \o "=" \o (IF Find(o, c[2]) = <<>> THEN "-" ELSE Val(c[3], Find(o, c[2])[1]))
Shown(o) == [i \in DOMAIN Catalogue[o.kind] |-> Said(o, Catalogue[o.kind][i])]
Counts(t) == [p \in 1..NP |-> "p" \o ToString(p) \o (FoldLeft(LAMBDA a, k : a \o " " \o ToString(t.n[p][k]), "", <<"error", "warning", "verbose", "debug", "progress", "information", "output">>))
                              \o (IF t.failed[p] THEN " failed" ELSE " running")]
Made(o) == [i \in DOMAIN Catalogue[o.kind] |-> IF Catalogue[o.kind][i][1] = "invocation" THEN "invocation=false" ELSE Said(o, Catalogue[o.kind][i])]
Step(t, o) ==
  IF o.n = "made" THEN [s |-> t, obs |-> <<"sent on" \o Type(o.kind), "text -">> \o Made(o)] ELSE
  LET u == [t EXCEPT !.n[o.p][Stream(o.kind)] = @ + 1, !.failed[o.p] = @ \/ o.kind = "failure"]
  IN [s |-> u, obs |-> <<"ok", "text " \o o.text>> \o Shown(o) \o Counts(u) \o (IF o.on = "-" THEN <<>> ELSE <<"sent on" \o Type(o.kind), "text " \o o.text>> \o Shown(o))]
Names(k) == {Catalogue[k][i][2] : i \in DOMAIN Catalogue[k]}
Must(k) == {Catalogue[k][i][2] : i \in {j \in DOMAIN Catalogue[k] : ~Catalogue[k][j][4]}}
Useful(t, o) == /\ o.n = "made" \/ ~t.failed[o.p]
                /\ o.n = "made" \/ Must(o.kind) \subseteq {o.fs[i].w : i \in DOMAIN o.fs}

\* exploration: all fields, the mandatory ones, those and one more, all but one
Sample(ty, i) == CASE ty = "B" -> <<IF i % 2 = 0 THEN "true" ELSE "false">> [] ty \in {"I32", "I64", "U32"} -> <<ToString(i)>> [] ty = "LI" -> <<ToString(i), "0">>
                   [] ty = "LS" -> <<"a" \o ToString(i), "b">> [] ty = "LA" -> (IF i % 2 = 0 THEN <<"S a", "I32 5", "B true">> ELSE <<"I32 7", "S b">>) [] ty = "DCT" -> <<"k" \o ToString(i) \o "=v">> [] ty \in {"origin", "visibility", "progress"} -> <<ToString(i % 2)>>
                   [] ty = "types" -> <<>> [] ty = "DT" -> <<"2020-01-01T00:00:00.0000000Z">> [] OTHER -> <<"t" \o ToString(i)>>
Field(k, i, nil) == [w |-> Catalogue[k][i][2], v |-> IF nil THEN <<>> ELSE Sample(Catalogue[k][i][3], i), nil |-> nil, num |-> IF Catalogue[k][i][3] = "types" THEN 10 ELSE 0]
Rec(p, k, ix, nils) == [n |-> "rec", p |-> p, kind |-> k, on |-> <<"arg", "-", "in">>[((Cardinality(ix) + Cardinality(nils) + p) % 3) + 1], text |-> "T", fs |-> LET q == SetToSortSeq(ix, <) IN [j \in DOMAIN q |-> Field(k, q[j], q[j] \in nils)]]
All(k) == DOMAIN Catalogue[k]
Low(k) == {i \in All(k) : ~Catalogue[k][i][4]}
Ops == {Rec(p, k, All(k), {}) : p \in 1..NP, k \in Kinds} \cup {Rec(p, k, Low(k), {}) : p \in 1..NP, k \in Kinds}
Alone == UNION {{Rec(1, k, All(k) \ {i}, {}) : i \in All(k) \ Low(k)} \cup {Rec(1, k, Low(k) \cup {i}, {}) : i \in All(k)} \cup {Rec(1, k, All(k), {i}) : i \in All(k) \ Low(k)} : k \in Kinds}
Making == LET ks == {"warning", "verbose", "debug", "progress", "information"} IN
          UNION {{[Rec(1, k, All(k) \ {i}, {}) EXCEPT !.n = "made", !.on = IF i % 2 = 0 THEN "arg" ELSE "in"] : i \in 0..Len(Catalogue[k])} \cup {[Rec(1, k, {i}, {}) EXCEPT !.n = "made", !.on = "arg"] : i \in All(k)} : k \in ks}
Total(t) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [p \in 1..NP |-> FoldFunctionOnSet(LAMBDA a, b : a + b, 0, t.n[p], Streams)], 1..NP)
Init == s = InitOf([x |-> 0]) /\ op = [n |-> "init"] /\ obs = <<>>
Next == \E o \in Ops \cup (IF Singles /\ Total(s) = 0 THEN Alone \cup Making ELSE {}) : Useful(s, o) /\ LET r == Step(s, o) IN s' = r.s /\ obs' = r.obs /\ op' = o
Bound == Total(s) <= MaxRec
View == s
Dump == PrintT(ToJson([i |-> op.n = "init", f |-> s, o |-> op', x |-> obs', t |-> s']))
vars == <<s, op, obs>>
OneMore == [][op'.n = "rec" => Total(s') = Total(s) + 1]_vars
MadeKeeps == [][op'.n = "made" => s' = s]_vars
OthersKeep == [][\A p \in 1..NP : p # op'.p => s'.n[p] = s.n[p]]_vars
EverythingSaid == [][op'.n = "rec" => Len(obs') = (2 + Len(Catalogue[op'.kind])) * (IF op'.on = "-" THEN 1 ELSE 2) + NP]_vars
=========================================================================================
