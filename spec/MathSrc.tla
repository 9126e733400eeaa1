------------------------------ MODULE MathSrc -------------------------------
(* The source of a formula: lexing, expansion of user macros, normal forms.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letters == Lower \cup Upper
Blank == {" ", "\t", "\n"}
-----------------------------------------------------------------------------
(* Tokens: control sequences and characters; blanks and comments are none.    *)
LexStep(s, c) ==
  LET Plain(o) == CASE c = "\\" -> [m |-> "esc", w |-> "", out |-> o]
                    [] c = "%" -> [m |-> "cmt", w |-> "", out |-> o]
                    [] c \in Blank -> [m |-> "text", w |-> "", out |-> o]
                    [] OTHER -> [m |-> "text", w |-> "", out |-> Append(o, c)] IN
  CASE s.m = "text" -> Plain(s.out)
    [] s.m = "cmt" -> IF c = "\n" THEN [s EXCEPT !.m = "text"] ELSE s
    [] s.m = "esc" -> IF c \in Letters THEN [s EXCEPT !.m = "word", !.w = "\\" \o c]
                      ELSE [m |-> "text", w |-> "", out |-> Append(s.out, IF c \in Blank THEN "\\ " ELSE "\\" \o c)]
    [] s.m = "word" -> IF c \in Letters THEN [s EXCEPT !.w = @ \o c] ELSE Plain(Append(s.out, s.w))
Lex(chars) == LET s == FoldLeft(LexStep, [m |-> "text", w |-> "", out |-> <<>>], chars) IN IF s.m = "word" THEN Append(s.out, s.w) ELSE s.out
-----------------------------------------------------------------------------
(* User macros: [name, n, opt, dflt, delim, body]; body has tokens "#1", ...   *)
\* position behind the first balanced group or token of t from i on
Close(t, i) == LET d == FoldLeft(LAMBDA a, j : IF a.at > 0 THEN a ELSE LET e == IF t[j] = "{" THEN a.d + 1 ELSE IF t[j] = "}" THEN a.d - 1 ELSE a.d IN [d |-> e, at |-> IF e = 0 THEN j ELSE 0],
                                 [d |-> 0, at |-> 0], [j \in 1..(Len(t) - i + 1) |-> i + j - 1]) IN d.at
Ended(t, i) == i <= Len(t) /\ (t[i] = "{" => Close(t, i) > 0)
Arg(t, i) == IF t[i] = "{" THEN SubSeq(t, i + 1, Close(t, i) - 1) ELSE <<t[i]>>
After(t, i) == IF t[i] = "{" THEN Close(t, i) + 1 ELSE i + 1
\* first j >= i with token x outside braces
Find(t, i, x) == LET d == FoldLeft(LAMBDA a, j : IF a.at > 0 THEN a ELSE IF a.d = 0 /\ t[j] = x THEN [a EXCEPT !.at = j] ELSE [a EXCEPT !.d = IF t[j] = "{" THEN a.d + 1 ELSE IF t[j] = "}" THEN a.d - 1 ELSE a.d],
                                   [d |-> 0, at |-> 0], [j \in 1..(Len(t) - i + 1) |-> i + j - 1]) IN d.at
RECURSIVE Undelimited(_, _, _)
\* n arguments from i on: <<sequence of arguments, next position>>; <<>> when there are not enough
Undelimited(t, i, n) == IF n = 0 THEN <<<<>>, i>> ELSE IF ~Ended(t, i) THEN <<>>
                        ELSE LET r == Undelimited(t, After(t, i), n - 1) IN IF r = <<>> THEN <<>> ELSE <<<<Arg(t, i)>> \o r[1], r[2]>>
Args(t, i, m) == IF m.delim # "" THEN LET j == Find(t, i, m.delim) IN IF j = 0 THEN <<>> ELSE <<<<SubSeq(t, i, j - 1)>>, j + 1>>
                 ELSE IF m.opt THEN IF i <= Len(t) /\ t[i] = "["
                                    THEN LET j == Find(t, i + 1, "]")  r == IF j = 0 THEN <<>> ELSE Undelimited(t, j + 1, m.n - 1) IN IF r = <<>> THEN <<>> ELSE <<<<SubSeq(t, i + 1, j - 1)>> \o r[1], r[2]>>
                                    ELSE LET r == Undelimited(t, i, m.n - 1) IN IF r = <<>> THEN <<>> ELSE <<<<m.dflt>> \o r[1], r[2]>>
                 ELSE Undelimited(t, i, m.n)
Par == [x \in {"#1", "#2", "#3"} |-> CASE x = "#1" -> 1 [] x = "#2" -> 2 [] OTHER -> 3]
Filled(body, args) == FlattenSeq([k \in DOMAIN body |-> IF body[k] \in DOMAIN Par THEN args[Par[body[k]]] ELSE <<body[k]>>])
Macro(ms, x) == LET q == {k \in DOMAIN ms : ms[k].name = x} IN IF q = {} THEN 0 ELSE CHOOSE k \in q : TRUE
FirstMacro(ms, t, i) == LET q == {j \in i..Len(t) : Macro(ms, t[j]) # 0} IN IF q = {} THEN 0 ELSE CHOOSE j \in q : \A x \in q : j <= x
RECURSIVE Expand(_, _, _)
\* all macros from position i on; <<"bad">> when an argument is missing
Expand(ms, t, i) ==
  LET j == FirstMacro(ms, t, i) IN
  IF j = 0 THEN t
  ELSE LET m == ms[Macro(ms, t[j])]  a == Args(t, j + 1, m) IN
       IF a = <<>> THEN <<"bad">> ELSE Expand(ms, SubSeq(t, 1, j - 1) \o Filled(m.body, a[1]) \o SubSeq(t, a[2], Len(t)), j)
-----------------------------------------------------------------------------
(* Normal forms: one spelling of the delimiters of mathematics and of         *)
(* angle delimiters.                                                          *)
Angle(t, k) == IF k > 1 /\ t[k - 1] \in {"\\left", "\\right"} THEN (CASE t[k] = "<" -> "\\langle" [] t[k] = ">" -> "\\rangle" [] OTHER -> t[k]) ELSE t[k]
Canon(t) == [k \in DOMAIN t |-> CASE t[k] \in {"\\(", "\\)"} -> "$" [] OTHER -> Angle(t, k)]
\* what MathJax gets: no characters that HTML could take for markup
Jax(t) == [k \in DOMAIN t |-> CASE t[k] = "<" -> "\\lt" [] t[k] = ">" -> "\\gt" [] OTHER -> t[k]]
\* the finding: characters substituted in the cells of arrays
Typed(chars) == FlattenSeq([k \in DOMAIN chars |-> CASE chars[k] = "U+2019" -> <<"'">> [] chars[k] = "U+201D" -> <<"'", "'">> [] chars[k] = "U+2013" -> <<"-", "-">> [] chars[k] = "U+2014" -> <<"-", "-", "-">>
                            [] chars[k] = "U+201C" -> <<"`", "`">> [] chars[k] = "U+2018" -> <<"`">> [] OTHER -> <<chars[k]>>])
\* the delimiters the implementation writes around a formula of each kind
Delims(k) == CASE k = "inline" -> <<<<"$">>, <<"$">>>> [] k = "display" -> <<<<"\\[">>, <<"\\]">>>>
               [] OTHER -> <<<<>>, <<>>>>
Wanted(ms, k, chars) == LET e == Expand(ms, Lex(chars), 1) IN IF e = <<"bad">> THEN e ELSE Delims(k)[1] \o Canon(e) \o Delims(k)[2]
=============================================================================
