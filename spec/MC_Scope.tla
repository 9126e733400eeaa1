----------------------------- MODULE MC_Scope ------------------------------
(* Scoping: the frame stack of MiniTeX against a stack of complete           *)
(* snapshots (enter = copy the top, leave = drop it, global = change every   *)
(* one), over every sequence of openings, closings and assignments; the      *)
(* sequences are written out as programs for replay on the implementation.   *)
EXTENDS MiniTeX, Json, IOUtils, SequencesExt
CONSTANTS N, Wide
Opens == {"{", "bg", "env", "math", "box"} \cup (IF Wide THEN {"tab"} ELSE {})
OpenToks(o) == CASE o = "{" -> <<"{">> [] o = "bg" -> <<"\\begingroup">>
  [] o = "env" -> <<"\\begin", "{", "q", "u", "o", "t", "e", "}">>
  [] o = "math" -> <<"$", "k">> [] o = "tab" -> <<"\\begin", "{", "t", "a", "b", "u", "l", "a", "r", "}", "{", "l", "l", "}", "k">>
  [] OTHER -> <<"\\textbf", "{">>
CloseToks(o) == CASE o = "{" -> <<"}">> [] o = "bg" -> <<"\\endgroup">>
  [] o = "env" -> <<"\\end", "{", "q", "u", "o", "t", "e", "}">>
  [] o = "math" -> <<"$">> [] o = "tab" -> <<"\\end", "{", "t", "a", "b", "u", "l", "a", "r", "}">>
  [] OTHER -> <<"}">>
Assigns == {"xa", "gx", "xy", "ry", "c11", "c12"} \cup (IF Wide THEN {"xn", "gy", "act"} ELSE {})
AssignToks(a) == CASE a = "xa" -> <<"\\def", "\\mx", "{", "a", "}">>
  [] a = "gx" -> <<"\\gdef", "\\mx", "{", "g", "}">>
  [] a = "xy" -> <<"\\let", "\\mx", "=", "\\my">>
  [] a = "xn" -> <<"\\let", "\\mx", "n">>
  [] a = "ry" -> <<"\\renewcommand", "{", "\\my", "}", "{", "r", "}">>
  [] a = "gy" -> <<"\\expandafter", "\\gdef", "\\csname", "m", "y", "\\endcsname", "{", "h", "}">>
  [] a = "c11" -> <<"\\makeatletter">>
  [] a = "act" -> <<"\\catcode", "`", "\\!", "=", "1", "3", "\\relax">>
  [] OTHER -> <<"\\catcode", "`", "\\@", "=", "1", "2", "\\relax">>
Set(V, f, v) == [V EXCEPT ![Len(V)][f] = v]
SetAll(V, f, v) == [i \in DOMAIN V |-> [V[i] EXCEPT ![f] = v]]
Top(V) == V[Len(V)]
Effect(a, V) == CASE a = "xa" -> Set(V, "x", "a") [] a = "gx" -> SetAll(V, "x", "g")
  [] a = "xy" -> Set(V, "x", Top(V).y) [] a = "xn" -> Set(V, "x", "n") [] a = "ry" -> Set(V, "y", "r")
  [] a = "gy" -> SetAll(V, "y", "h") [] a = "c11" -> Set(V, "at", 11) [] a = "act" -> Set(V, "ex", 13)
  [] OTHER -> Set(V, "at", 12)
\* which openings are sensible inside the open ones
Allowed(o, st) == LET in(x) == \E i \in DOMAIN st : st[i] = x IN
  CASE o = "math" -> ~in("math") [] o \in {"env", "tab"} -> ~in("math") /\ ~in("box") /\ ~in("tab")
    [] o = "box" -> TRUE [] OTHER -> TRUE
AllowedA(a, st) == \A i \in DOMAIN st : st[i] = "box" => a # "act"
Prelude == <<"\\def", "\\mx", "{", "o", "}", "\\newcommand", "{", "\\my", "}", "{", "p", "}">>
Obs == <<"\\mx", "\\my", "\\vfcat">>
VARIABLES n, S, V, st, op
vars == <<n, S, V, st, op>>
RECURSIVE RunAll(_)
RunAll(X) == IF Finished(X) THEN X ELSE RunAll(Step(X))
Feed(X, ts) == [RunAll([X EXCEPT !.toks = ts]) EXCEPT !.out = <<>>]
Init == /\ n = 0 /\ V = <<[x |-> "o", y |-> "p", at |-> 12, ex |-> 12]>> /\ st = <<>> /\ op = "start"
        /\ S = Feed(Start(<<>>), Prelude)
\* (boxes read their argument at once; the machine is stepped with their group)
OpenNow(o) == IF o = "box" THEN <<"\\VF bg">> ELSE OpenToks(o)
CloseNow(o) == IF o = "box" THEN <<"\\VF eg">> ELSE CloseToks(o)
DoOpen == \E o \in Opens : /\ Allowed(o, st) /\ st' = Append(st, o) /\ V' = Append(V, Top(V))
                         /\ S' = Feed(S, OpenNow(o)) /\ op' = "open"
DoClose == /\ st # <<>> /\ st' = SubSeq(st, 1, Len(st) - 1) /\ V' = SubSeq(V, 1, Len(V) - 1)
         /\ S' = Feed(S, CloseNow(st[Len(st)])) /\ op' = "close"
DoAssign == \E a \in Assigns : /\ AllowedA(a, st) /\ V' = Effect(a, V) /\ S' = Feed(S, AssignToks(a)) /\ st' = st /\ op' = a
Next == n < N /\ n' = n + 1 /\ (DoOpen \/ DoClose \/ DoAssign)
Spec == Init /\ [][Next]_vars
Text(m) == IF m.k = "mac" THEN Concat(m.body) ELSE m.c
Refines == /\ ~S.err
           /\ Text(Lk(S.F, "\\mx")) = Top(V).x /\ Text(Lk(S.F, "\\my")) = Top(V).y
           /\ CatOf(S.F, "@") = Top(V).at /\ CatOf(S.F, "!") = Top(V).ex
\* leaving a group brings back what was in force before it, up to global definitions
Restores == [][op' = "close" => \A f \in {"at", "ex"} : Top(V')[f] = V[Len(V) - 1][f]]_vars
RECURSIVE CloseAll(_), Gen(_, _)
CloseAll(s) == IF s = <<>> THEN <<>> ELSE CloseToks(s[Len(s)]) \o Obs \o CloseAll(SubSeq(s, 1, Len(s) - 1))
Gen(k, s) == IF k = 0 THEN {CloseAll(s)} ELSE
   UNION {{OpenToks(o) \o Obs \o r : r \in Gen(k - 1, Append(s, o))} : o \in {o \in Opens : Allowed(o, s)}}
   \cup UNION {{AssignToks(a) \o Obs \o r : r \in Gen(k - 1, s)} : a \in {a \in Assigns : AllowedA(a, s)}}
   \cup (IF s = <<>> THEN {} ELSE {CloseToks(s[Len(s)]) \o Obs \o r : r \in Gen(k - 1, SubSeq(s, 1, Len(s) - 1))})
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq({Prelude \o g : g \in Gen(N, <<>>)}))
=============================================================================
