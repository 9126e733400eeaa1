------------------------------ MODULE MC_Cond ------------------------------
(* Conditional trees: the token machine of MiniTeX against a direct (big     *)
(* step) meaning, exhaustively; the programs are written out for replay on   *)
(* the implementation.                                                       *)
EXTENDS MiniTeX, Json, IOUtils, SequencesExt
CONSTANT Deep
Brace(s) == <<"{">> \o s \o <<"}">>
Cx == <<"{", "c", "x", "}">>
\* leaves and what they do
Leaf(n) == [k |-> "leaf", n |-> n]
Leaves == {Leaf("text"), Leaf("step"), Leaf("flip")}
LeafToks(n) == CASE n = "text" -> <<"a">> [] n = "step" -> <<"\\stepcounter">> \o Cx
                 [] n = "flip" -> <<"\\swatrue">> [] OTHER -> <<"p", "{", "q", "}">>
If(c, a, e, b) == [k |-> "if", c |-> c, a |-> a, e |-> e, b |-> b]
Case(alts, e, b) == [k |-> "case", alts |-> alts, e |-> e, b |-> b]
CondToks(c) == CASE c = "T" -> <<"\\iftrue">> [] c = "F" -> <<"\\iffalse">>
  [] c = "num" -> <<"\\ifnum", "\\value">> \o Cx \o <<"<", "1", " ">>
  [] c = "odd" -> <<"\\ifodd", "\\value">> \o Cx
  [] c = "sw" -> <<"\\ifswa">>
  [] c = "dim" -> <<"\\ifdim", "1", "p", "t", "<", "\\arabic">> \o Cx \o <<"p", "t", " ">>
  [] c = "x" -> <<"\\ifx", "\\mb", "\\mc">>
  [] OTHER -> <<"\\ifdefined", "\\md">>
Holds(c, env) == CASE c = "T" -> TRUE [] c = "F" -> FALSE [] c = "num" -> env.ctr < 1
  [] c = "odd" -> env.ctr % 2 = 1 [] c = "sw" -> env.sw [] c = "dim" -> 1 < env.ctr
  [] c = "x" -> TRUE [] OTHER -> FALSE
RECURSIVE Toks(_), Alts(_)
Toks(t) == CASE t.k = "leaf" -> LeafToks(t.n)
  [] t.k = "if" -> CondToks(t.c) \o Toks(t.a) \o (IF t.e THEN <<"\\else">> \o Toks(t.b) ELSE <<>>) \o <<"\\fi">>
  [] OTHER -> <<"\\ifcase", "\\value">> \o Cx \o Alts(t.alts)
              \o (IF t.e THEN <<"\\else">> \o Toks(t.b) ELSE <<>>) \o <<"\\fi">>
Alts(ts) == IF Len(ts) = 1 THEN Toks(ts[1]) ELSE Toks(ts[1]) \o <<"\\or">> \o Alts(Tail(ts))
RECURSIVE Eval(_, _)
Eval(t, env) ==
  CASE t.k = "leaf" -> (CASE t.n = "text" -> [env EXCEPT !.out = Append(@, "a")]
                          [] t.n = "step" -> [env EXCEPT !.ctr = @ + 1]
                          [] t.n = "flip" -> [env EXCEPT !.sw = TRUE]
                          [] OTHER -> [env EXCEPT !.out = @ \o <<"p", "q">>])
    [] t.k = "if" -> (IF Holds(t.c, env) THEN Eval(t.a, env) ELSE IF t.e THEN Eval(t.b, env) ELSE env)
    [] OTHER -> (IF env.ctr \in 0..(Len(t.alts) - 1) THEN Eval(t.alts[env.ctr + 1], env)
                 ELSE IF t.e THEN Eval(t.b, env) ELSE env)
Conds == {"T", "F", "num", "odd", "sw", "dim", "x", "def"}
D1 == {If(c, a, e, b) : c \in Conds, a \in Leaves, e \in BOOLEAN, b \in Leaves}
      \cup {Case(alts, e, b) : alts \in UNION {[1..k -> Leaves] : k \in 1..2}, e \in BOOLEAN, b \in {Leaf("text")}}
Few == {Leaf("text"), Leaf("pq")}
In2 == {If(c, a, e, Leaf("pq")) : c \in {"F", "num", "sw"}, a \in Leaves, e \in BOOLEAN}
       \cup {Case(<<a, Leaf("step")>>, e, Leaf("pq")) : a \in Leaves, e \in BOOLEAN}
D2 == {If(c, a, TRUE, b) : c \in {"T", "F", "num"}, a \in In2, b \in Few}
      \cup {If(c, a, TRUE, b) : c \in {"T", "F", "sw"}, a \in Few, b \in In2}
      \cup {Case(<<a, b>>, TRUE, d) : a \in Few, b \in In2, d \in Few}
      \cup {Case(<<b, a>>, FALSE, a) : a \in Few, b \in In2}
D3 == {If(c, a, TRUE, b) : c \in {"F", "sw"}, a \in D2, b \in {Leaf("text")}}
      \cup {Case(<<b, a>>, TRUE, Leaf("pq")) : a \in {Leaf("text")}, b \in D2}
Trees == D1 \cup D2 \cup (IF Deep THEN D3 ELSE {})
Inits == {"", "one", "two", "sw"}
InitToks(i) == <<"\\newcounter">> \o Cx \o <<"\\newif", "\\ifswa", "\\def", "\\mb", "{", "z", "}", "\\def", "\\mc", "{", "z", "}">> \o
   (CASE i = "one" -> <<"\\setcounter">> \o Cx \o <<"{", "1", "}">>
      [] i = "two" -> <<"\\setcounter">> \o Cx \o <<"{", "2", "}">>
      [] i = "sw" -> <<"\\swatrue">> [] OTHER -> <<>>)
InitEnv(i) == [ctr |-> IF i = "one" THEN 1 ELSE IF i = "two" THEN 2 ELSE 0, sw |-> i = "sw", out |-> <<>>]
Wraps == {"", "group", "body", "arg"}
Wrap(w, s) == CASE w = "" -> s [] w = "group" -> Brace(s)
  [] w = "body" -> <<"\\def", "\\ma">> \o Brace(s) \o <<"\\ma">>
  [] OTHER -> <<"\\newcommand", "\\ma", "[", "1", "]">> \o Brace(<<"#", "1">>) \o <<"\\ma">> \o Brace(s)
Obs == <<"\\arabic">> \o Cx \o <<"\\ifswa", "s", "\\else", "n", "\\fi">>
ObsOut(e) == e.out \o Digits(e.ctr) \o <<IF e.sw THEN "s" ELSE "n">>
VARIABLES tree, ini, wrap, S
vars == <<tree, ini, wrap, S>>
Prog(t, i, w) == InitToks(i) \o Wrap(w, Toks(t)) \o Obs
Init == /\ tree \in Trees
        /\ ini \in (IF tree \in D1 THEN Inits ELSE {"", "one"})
        /\ wrap \in (IF tree \in D1 THEN Wraps ELSE {IF tree.e THEN "" ELSE "arg"})
        /\ S = Start(Prog(tree, ini, wrap))
RECURSIVE RunAll(_)
RunAll(X) == IF Finished(X) THEN X ELSE RunAll(Step(X))
Next == /\ ~Finished(S) /\ S' = RunAll(S) /\ UNCHANGED <<tree, ini, wrap>>
Spec == Init /\ [][Next]_vars
Agrees == Finished(S) => /\ ~S.err /\ Balanced(S)
                         /\ S.out = ObsOut(Eval(tree, InitEnv(ini)))
Programs == {Prog(t, i, w) : t \in D1, i \in Inits, w \in Wraps}
            \cup {Prog(t, i, IF t.e THEN "" ELSE "arg") : t \in Trees \ D1, i \in {"", "one"}}
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq(Programs))
=============================================================================
