------------------------------ MODULE MC_Config ------------------------------
(* One option, given by any subset of three files and a command line: the   *)
(* layering machine agrees with the direct definition of precedence.        *)
EXTENDS Config, TLC, Json, IOUtils, SequencesExt
CONSTANT Deep
None == "none"
\* strings that may be written for an option of type t, with their meaning
FileVals(i) ==
  LET t == Table[i].t IN
  CASE t = "s" -> {<<"x y", "x y">>, <<"", "">>} \cup (IF Deep THEN {<<"%(kpsewhich)s%%", "%(kpsewhich)s%%">>} ELSE {})
    [] t = "i" -> {<<"7", "7">>, <<"-2", "-2">>} \cup (IF Deep THEN {<<"+010", "10">>} ELSE {})
    [] t = "f" -> {<<"2.50", <<"25", -1>>>>, <<"-3", <<"-3", 0>>>>, <<"1e2", <<"1", 2>>>>}
    [] t = "b" -> {<<"yes", TRUE>>, <<"No", FALSE>>} \cup
                  (IF Deep THEN {<<"off", FALSE>>, <<"TRUE", TRUE>>, <<"0", FALSE>>, <<"on", TRUE>>} ELSE {})
    [] t = "l" -> {<<"a 'b c'", <<"a", "b c">>>>, <<"\"q\\\"\" a\\ b", <<"q\"", "a b">>>>} \cup (IF Deep THEN {<<"", <<>>>>} ELSE {})
    [] t = "d" -> {<<"k=1, j = 2", <<<<"k", "1">>, <<"j", "2">>>>>>, <<"k=3", <<<<"k", "3">>>>>>}
CliVals(i) ==
  LET t == Table[i].t IN
  CASE t = "s" -> {<<f, <<"c=d">>, "c=d">> : f \in Table[i].on}
    [] t = "i" -> {<<f, <<"-4">>, "-4">> : f \in Table[i].on}
    [] t = "f" -> {<<f, <<".5">>, <<"5", -1>>>> : f \in Table[i].on}
    [] t = "b" -> {<<f, <<>>, f \in Table[i].on>> : f \in Table[i].on \cup Table[i].off}
    [] t = "l" -> {<<f, <<"z", "a b">>, <<"z", "a b">>>> : f \in Table[i].on}
    [] t = "d" -> IF Table[i].k = "links" THEN {<<f, <<"k", "9", "8">>, <<<<"k-url", "9">>, <<"k-title", "8">>>>>> : f \in Table[i].on}
                  ELSE {<<f, <<"k", "9">>, <<<<"k", "9">>>>>> : f \in Table[i].on}
Layers == 3
VARIABLES opt, files, cli, layer, cfg
vars == <<opt, files, cli, layer, cfg>>
FileOf(i, x) == IF x = <<None>> THEN <<>> ELSE <<<<Table[i].s, Table[i].k, x[1]>>>>
Init == /\ opt \in 1..N /\ layer = 0 /\ cfg = Default
        /\ files \in [1..Layers -> FileVals(opt) \cup {<<None>>}]
        /\ cli \in CliVals(opt) \cup {<<None>>}
Next == /\ layer <= Layers /\ layer' = layer + 1 /\ UNCHANGED <<opt, files, cli>>
        /\ cfg' = IF layer < Layers THEN File(cfg, FileOf(opt, files[layer + 1]))
                  ELSE IF cli = <<None>> THEN cfg ELSE CmdLine(cfg, <<<<cli[1], cli[2]>>>>)
Spec == Init /\ [][Next]_vars
\* the direct definition: last source that gives it / everything in order
Given == SelectSeq(<<files[1], files[2], files[3], IF cli = <<None>> THEN cli ELSE <<cli[1], cli[3]>>>>, LAMBDA x : x # <<None>>)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1][2] \o Concat(Tail(s))
LastOf(ps, k) == LET idx == {j \in DOMAIN ps : ps[j][1] = k} IN ps[CHOOSE j \in idx : \A m \in idx : m <= j][2]
Meaning ==
  LET t == Table[opt].t IN
  IF t = "l" THEN Table[opt].d \o Concat(Given)
  ELSE IF t = "d" THEN LET ps == Concat(Given) IN {<<k, Entry(Table[opt].et, LastOf(ps, k))>> : k \in {ps[j][1] : j \in DOMAIN ps}}
  ELSE IF Given = <<>> THEN Table[opt].d ELSE Given[Len(Given)][2]
Agrees == layer > Layers => /\ cfg[opt] = Meaning
                            /\ \A i \in 1..N : i # opt => cfg[i] = Default[i]
\* cases to run
FVs(i) == SetToSeq({x[1] : x \in FileVals(i)})
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT,
   [i \in 1..N |-> [s |-> Table[i].s, k |-> Table[i].k, t |-> Table[i].t, et |-> Table[i].et,
                    on |-> SetToSeq(Table[i].on), off |-> SetToSeq(Table[i].off),
                    file |-> FVs(i), cli |-> SetToSeq({<<x[1], x[2]>> : x \in CliVals(i)})]])
=============================================================================
