----------------------------- MODULE MC_Macro ------------------------------
(* Macro definitions and calls: the expansion machine of MiniTeX against     *)
(* direct substitution of the arguments, for every combination of parameter  *)
(* text, arguments, replacement text and way of reaching the call; the       *)
(* programs are written out for replay on the implementation.                *)
EXTENDS MiniTeX, Json, IOUtils, SequencesExt
CONSTANT Deep    \* 0 .. 2
Brace(s) == <<"{">> \o s \o <<"}">>
\* parameter texts: [pre, del, brace, opt: <<>> or <<default>>]
Dels == {<<>>, <<"p", "p", "q">>, <<"\\stop">>} \cup (IF Deep > 0 THEN {<<".">>} ELSE {})
        \cup (IF Deep > 1 THEN {<<";", ".">>, <<".", ".">>} ELSE {})
DefPats == {[pre |-> p, del |-> d, brace |-> b, opt |-> <<>>, cmd |-> FALSE] :
               p \in {<<>>, <<".">>}, d \in UNION {[1..k -> Dels] : k \in 0..2}, b \in BOOLEAN}
CmdPats == {[pre |-> <<>>, del |-> [i \in 1..k |-> <<>>], brace |-> FALSE, opt |-> o, cmd |-> TRUE] :
               k \in 1..2, o \in {<<>>, <<<<"d", "e">>>>}}
Pats == DefPats \cup CmdPats
\* arguments as written: [t: tokens, v: visible characters of what the parameter stands for]
PlainArgs == {[t |-> <<"x">>, v |-> <<"x">>], [t |-> Brace(<<"x", "y">>), v |-> <<"x", "y">>],
         [t |-> Brace(<<>>), v |-> <<>>], [t |-> Brace(<<"u", "{", ".", "}">>), v |-> <<"u", ".">>],
         [t |-> Brace(<<"\\mz">>), v |-> <<"Z">>]}
DelArgs == PlainArgs \cup {[t |-> <<>>, v |-> <<>>], [t |-> <<"x", "p">>, v |-> <<"x", "p">>],
                      [t |-> <<"{", ".", "}", "y">>, v |-> <<".", "y">>],
                      [t |-> <<"p", "{", "p", "p", "q", "}">>, v |-> <<"p", "p", "p", "q">>]}
Small(S) == IF Deep > 1 THEN S ELSE IF Deep = 1 THEN {a \in S : Len(a.t) # 1}
            ELSE {a \in S : Len(a.t) \notin {1, 5}}
Bodies(n) == IF n = 0 THEN {<<"b">>, <<>>}
   ELSE IF n = 1 THEN {<<"#", "1">>, <<"#", "1", "k", "#", "1">>, <<"{", "#", "1", "}", "\\mz">>}
   ELSE {<<"#", "2", "k", "#", "1">>, <<"#", "1", "#", "2", "#", "1">>}
RECURSIVE Double(_), Params(_, _), CallArgs(_, _), Expect(_, _)
Double(ts) == IF ts = <<>> THEN <<>> ELSE (IF Head(ts) = "#" THEN <<"#", "#">> ELSE <<Head(ts)>>) \o Double(Tail(ts))
DigitOf(i) == CASE i = 1 -> "1" [] i = 2 -> "2" [] OTHER -> "3"
Params(del, i) == IF i > Len(del) THEN <<>> ELSE <<"#", DigitOf(i)>> \o del[i] \o Params(del, i + 1)
DefText(p, body) ==
   IF p.cmd THEN <<"\\newcommand", "\\ma", "[", DigitOf(Len(p.del)), "]">>
                 \o (IF p.opt = <<>> THEN <<>> ELSE <<"[">> \o p.opt[1] \o <<"]">>) \o Brace(body)
   ELSE <<"\\def", "\\ma">> \o p.pre \o Params(p.del, 1) \o (IF p.brace THEN <<"#">> ELSE <<>>) \o Brace(body)
\* is parameter i delimited?
IsDel(p, i) == p.del[i] # <<>> \/ (p.brace /\ i = Len(p.del))
CallArgs(p, as) == LET i == Len(p.del) - Len(as) + 1 IN
   IF as = <<>> THEN (IF p.brace THEN <<"{", "w", "}">> ELSE <<>>)
   ELSE (IF i = 1 /\ p.opt # <<>> THEN (IF Head(as).t = <<"NONE">> THEN <<>> ELSE <<"[">> \o Head(as).t \o <<"]">>)
         ELSE Head(as).t \o p.del[i]) \o CallArgs(p, Tail(as))
CallText(p, as) == p.pre \o CallArgs(p, as)
\* does the written text split into exactly these arguments?
Valid(p, as) == \A i \in DOMAIN as :
   IF i = 1 /\ p.opt # <<>> THEN TRUE
   ELSE IF IsDel(p, i) THEN
        LET rest == as[i].t \o p.del[i] \o (IF p.brace /\ i = Len(p.del) THEN <<"{">> ELSE <<>>) IN
        DelimAt(rest, p.del[i], p.brace /\ i = Len(p.del), 1, 0) = Len(as[i].t) + 1
   ELSE as[i] \in PlainArgs
Expect(body, vs) == IF body = <<>> THEN <<>>
   ELSE IF Head(body) = "#" THEN vs[Digit[body[2]]] \o Expect(SubSeq(body, 3, Len(body)), vs)
   ELSE (CASE Head(body) \in {"{", "}"} -> <<>> [] Head(body) = "\\mz" -> <<"Z">> [] OTHER -> <<Head(body)>>)
        \o Expect(Tail(body), vs)
ArgSets(p) == {as \in [1..Len(p.del) -> Small(DelArgs) \cup (IF p.opt # <<>> THEN {[t |-> <<"NONE">>, v |-> p.opt[1]]} ELSE {})] :
                 Valid(p, as) /\ \A i \in DOMAIN as : as[i].t = <<"NONE">> => i = 1 /\ p.opt # <<>>}
Ways == {"plain", "expandafter", "csname", "nested", "group", "let"}
Prelude == <<"\\def", "\\mz", "{", "Z", "}", "\\def", "\\stop", "{", "S", "}">>
Prog(w, p, as, body) == Prelude \o
   CASE w = "plain" -> DefText(p, body) \o <<"\\ma">> \o CallText(p, as) \o <<"|">>
     [] w = "expandafter" -> DefText(p, body) \o <<"\\def", "\\mb">> \o Brace(CallText(p, as)) \o
                             <<"\\expandafter", "\\ma", "\\mb", "|">>
     [] w = "csname" -> DefText(p, body) \o <<"\\csname", "m", "a", "\\endcsname">> \o CallText(p, as) \o <<"|">>
     [] w = "nested" -> <<"\\def", "\\mc", "#", "1">> \o Brace(Double(DefText(p, body)) \o <<"\\ma">> \o CallText(p, as) \o <<"#", "1">>)
                        \o <<"\\mc", "|">>
     [] w = "group" -> <<"{">> \o DefText(p, body) \o <<"\\ma">> \o CallText(p, as) \o <<"}", "|">>
     [] OTHER -> DefText(p, body) \o <<"\\let", "\\mb", "=", "\\ma", "\\def", "\\ma", "{", "N", "}", "\\mb">> \o CallText(p, as) \o <<"|">>
Expected(p, as, body) == Expect(body, [i \in DOMAIN as |-> as[i].v]) \o (IF p.brace THEN <<"w">> ELSE <<>>) \o <<"|">>
Cases == UNION {UNION {{[w |-> w, p |-> p, as |-> as, b |-> b] : w \in Ways, b \in Bodies(Len(p.del))} : as \in ArgSets(p)} : p \in Pats}
VARIABLES p, c, S
Of(q) == UNION {{[w |-> w, p |-> q, as |-> as, b |-> b] : w \in Ways, b \in Bodies(Len(q.del))} : as \in ArgSets(q)}
None1 == [w |-> "none"]
Init == p \in Pats /\ c = None1 /\ S = Start(<<>>)
RECURSIVE RunAll(_)
RunAll(X) == IF Finished(X) THEN X ELSE RunAll(Step(X))
Next == /\ c = None1 /\ c' \in Of(p) /\ UNCHANGED p
        /\ S' = RunAll(Start(Prog(c'.w, p, c'.as, c'.b)))
Spec == Init /\ [][Next]_<<p, c, S>>
Agrees == c # None1 => ~S.err /\ Balanced(S) /\ S.out = Expected(p, c.as, c.b)
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq({Prog(x.w, x.p, x.as, x.b) : x \in Cases}))
=============================================================================
