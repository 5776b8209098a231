---------------------------------- MODULE CommandTypes ---------------------------------
EXTENDS Integers, Sequences, SequencesExt
Flag(v, k) == (v \div k) % 2 = 1
TypeNames == <<<<"Alias", 1>>, <<"Function", 2>>, <<"Filter", 4>>, <<"Cmdlet", 8>>, <<"ExternalScript", 16>>, <<"Application", 32>>,
               <<"Script", 64>>, <<"Workflow", 128>>, <<"Configuration", 256>>>>
\* the text of a set of command types
TypeText(v) == IF v = 511 THEN "All" ELSE FoldLeft(LAMBDA a, x : IF Flag(v, x[2]) THEN a \o (IF a = "" THEN "" ELSE ", ") \o x[1] ELSE a, "", TypeNames)
=========================================================================================
