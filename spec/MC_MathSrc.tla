----------------------------- MODULE MC_MathSrc -----------------------------
(* Every short formula over a small set of tokens: reading it into nodes,      *)
(* macros expanded as they come, and writing every node by its own rule gives *)
(* the tokens of the formula with all macros expanded.                        *)
EXTENDS MathSrc, Json, IOUtils
CONSTANTS MaxLen, OutLen
VARIABLE toks
Macros == << [name |-> "\\R", n |-> 0, opt |-> FALSE, dflt |-> <<>>, delim |-> "", body |-> <<"\\a", "x">>],
             [name |-> "\\m", n |-> 1, opt |-> FALSE, dflt |-> <<>>, delim |-> "", body |-> <<"#1", "^", "{", "#1", "}">>],
             [name |-> "\\o", n |-> 2, opt |-> TRUE, dflt |-> <<"x">>, delim |-> "", body |-> <<"#2", "\\a", "#1">>],
             [name |-> "\\d", n |-> 1, opt |-> FALSE, dflt |-> <<>>, delim |-> ".", body |-> <<"(", "#1", ")">>] >>
Alphabet == {"x", "1", "{", "}", "[", "]", ".", "^", "\\a", "\\f", "\\q", "\\R", "\\m", "\\o", "\\d"}
Sig == [c \in {"\\a", "\\f", "\\q", "^"} |-> CASE c = "\\a" -> <<FALSE, 0>> [] c = "\\f" -> <<FALSE, 2>> [] c = "\\q" -> <<TRUE, 1>> [] OTHER -> <<FALSE, 1>>]
Chars(t) == CASE t = "\\a" -> <<"\\", "a">> [] t = "\\f" -> <<"\\", "f">> [] t = "\\q" -> <<"\\", "q">> [] OTHER -> <<t>>
Balanced(t) == LET d == FoldLeft(LAMBDA a, x : IF a < 0 THEN a ELSE IF x = "{" THEN a + 1 ELSE IF x = "}" THEN a - 1 ELSE a, 0, t) IN d = 0
Bad == [ok |-> FALSE, s |-> <<>>]
Ok(s) == [ok |-> TRUE, s |-> s]
And(a, b) == IF a.ok /\ b.ok THEN Ok(a.s \o b.s) ELSE Bad
RECURSIVE Write(_, _), WriteArgs(_, _, _)
\* n arguments from position i on, as [ok, s: their source, at: where to go on]
WriteArgs(t, i, n) ==
  IF n = 0 THEN [ok |-> TRUE, s |-> <<>>, at |-> i]
  ELSE IF ~Ended(t, i) \/ t[i] = "}" THEN [ok |-> FALSE, s |-> <<>>, at |-> i]
  ELSE IF t[i] # "{" /\ ((t[i] \in DOMAIN Sig /\ t[i] # "\\a") \/ (Macro(Macros, t[i]) # 0 /\ t[i] # "\\R")) THEN [ok |-> FALSE, s |-> <<>>, at |-> i]     \* an argument of its own kind needs braces
  ELSE LET in == Write(Arg(t, i), 1)
           r == WriteArgs(t, After(t, i), n - 1) IN
       [ok |-> in.ok /\ r.ok, s |-> (IF t[i] = "{" THEN <<"{">> \o in.s \o <<"}">> ELSE in.s) \o r.s, at |-> r.at]
\* the source of the nodes from position i on
Write(t, i) ==
  IF i > Len(t) THEN Ok(<<>>)
  ELSE IF Macro(Macros, t[i]) # 0
  THEN LET m == Macros[Macro(Macros, t[i])]  a == Args(t, i + 1, m) IN
       IF a = <<>> THEN Bad ELSE Write(Filled(m.body, a[1]) \o SubSeq(t, a[2], Len(t)), 1)
  ELSE IF t[i] = "{"
  THEN LET e == Close(t, i) IN IF e = 0 THEN Bad ELSE LET in == Write(SubSeq(t, i + 1, e - 1), 1) IN And(And(Ok(<<"{">>), in), And(Ok(<<"}">>), Write(t, e + 1)))
  ELSE IF t[i] = "}" THEN Bad
  ELSE IF t[i] \in DOMAIN Sig
  THEN LET o == Sig[t[i]][1] /\ i < Len(t) /\ t[i + 1] = "["
           j == IF o THEN Find(t, i + 2, "]") ELSE i
           opt == IF o /\ j > 0 THEN Write(SubSeq(t, i + 2, j - 1), 1) ELSE Ok(<<>>)
           r == WriteArgs(t, j + 1, Sig[t[i]][2])
           src == (IF o THEN <<"[">> \o opt.s \o <<"]">> ELSE <<>>) \o r.s IN
       IF j = 0 \/ ~opt.ok \/ ~r.ok THEN Bad
       \* a control word without arguments, or before a letter, is followed by a blank
       ELSE And(Ok(Chars(t[i]) \o (IF t[i] # "^" /\ (src = <<>> \/ src[1] \in Letters) THEN <<" ">> ELSE <<>>) \o src), Write(t, r.at))
  ELSE And(Ok(<<t[i]>>), Write(t, i + 1))
Init == toks = <<>>
Next == \E a \in Alphabet : Len(toks) < MaxLen /\ toks' = Append(toks, a)
Spec == Init /\ [][Next]_toks
Refined == ~Balanced(toks) \/ LET w == Write(toks, 1)  e == Expand(Macros, toks, 1) IN w.ok => e # <<"bad">> /\ Lex(w.s) = e
\* expansion leaves no macro and touches nothing else
Clean == ~Balanced(toks) \/ LET e == Expand(Macros, toks, 1) IN e = <<"bad">> \/ ((\A k \in DOMAIN e : Macro(Macros, e[k]) = 0) /\ ((\A k \in DOMAIN toks : Macro(Macros, toks[k]) = 0) => e = toks))
\* the formulas that are run on the implementation
Legal(t) == Balanced(t) /\ Write(t, 1).ok
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq({t \in UNION {[1..n -> Alphabet] : n \in 1..OutLen} : Legal(t)}))
=============================================================================
