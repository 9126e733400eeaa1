------------------------------ MODULE Verbatim ------------------------------
(* Verbatim material and the text around it, character by character.          *)
(*                                                                            *)
(* A state is [m, nm, d, buf, w, out]: the mode of the scanner, the name of   *)
(* the environment or control sequence being read, the delimiter of \verb,    *)
(* the characters collected so far, the current word of running text and the  *)
(* items produced: <<kind, characters>> with kind "w" for words.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
D == INSTANCE Digest
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letters == Lower \cup Upper
Blank == {" ", "\t", "\n"}
Envs == {"verbatim", "verbatim*"}
Start == [m |-> "text", nm |-> "", d |-> "", buf |-> <<>>, w |-> <<>>, out |-> <<>>]
Flush(s) == IF s.w = <<>> THEN s ELSE [s EXCEPT !.out = Append(@, <<"w", D!Sub(s.w)>>), !.w = <<>>]
Put(s, k) == [Flush(s) EXCEPT !.out = Append(@, <<k, s.buf>>), !.buf = <<>>, !.m = "text"]
Chars(name) == CASE name = "verbatim" -> <<"v", "e", "r", "b", "a", "t", "i", "m">> [] name = "verbatim*" -> <<"v", "e", "r", "b", "a", "t", "i", "m", "*">>
EndMark(name) == <<"\\", "e", "n", "d", "{">> \o Chars(name) \o <<"}">>
EndsWith(b, e) == Len(b) >= Len(e) /\ SubSeq(b, Len(b) - Len(e) + 1, Len(b)) = e
\* running text: the control sequences of the generated documents only separate
Text(s, c) ==
  CASE c = "\\" -> [s EXCEPT !.m = "esc"]
    [] c = "%" -> [s EXCEPT !.m = "cmt"]
    [] c \in Blank \cup {"{", "}", "&", "~"} -> Flush(s)
    [] OTHER -> [s EXCEPT !.w = Append(@, c)]
\* a control word has ended at c
Word(s, c) ==
  CASE s.nm = "verb" -> IF c = "*" THEN [Flush(s) EXCEPT !.m = "star"] ELSE [Flush(s) EXCEPT !.m = "verb", !.d = IF c = "{" THEN "}" ELSE c]
    [] s.nm \in {"begin", "end"} -> [Flush(s) EXCEPT !.m = "name", !.buf = <<>>]
    [] c \in Blank -> [Flush(s) EXCEPT !.m = "skip"]
    [] OTHER -> Text([Flush(s) EXCEPT !.m = "text"], c)
Step(s, c) ==
  CASE s.m = "text" -> Text(s, c)
    [] s.m = "skip" -> IF c \in Blank THEN s ELSE Text([s EXCEPT !.m = "text"], c)
    [] s.m = "cmt" -> IF c = "\n" THEN [s EXCEPT !.m = "skip"] ELSE s
    [] s.m = "esc" -> IF c \in Letters THEN [s EXCEPT !.m = "word", !.nm = c]
                      ELSE IF c \in {"%", "&", "#", "$", "_", "{", "}"} THEN [s EXCEPT !.m = "text", !.w = Append(@, c)] ELSE [Flush(s) EXCEPT !.m = "text"]
    [] s.m = "word" -> IF c \in Letters THEN [s EXCEPT !.nm = @ \o c] ELSE Word(s, c)
    [] s.m = "star" -> [s EXCEPT !.m = "verb", !.d = IF c = "{" THEN "}" ELSE c, !.nm = "verb"]
    [] s.m = "verb" -> IF c = s.d THEN Put(s, "verb") ELSE [s EXCEPT !.buf = Append(@, c)]
    [] s.m = "name" -> IF c = "{" THEN s
                       ELSE IF c # "}" THEN [s EXCEPT !.buf = Append(@, c)]
                       ELSE IF s.nm = "begin" /\ \E e \in Envs : Chars(e) = s.buf THEN [s EXCEPT !.m = "env", !.nm = CHOOSE e \in Envs : Chars(e) = s.buf, !.buf = <<>>]
                       ELSE IF s.nm = "begin" /\ s.buf = <<"t", "a", "b", "u", "l", "a", "r">> THEN [s EXCEPT !.m = "colspec", !.buf = <<>>]
                       ELSE [s EXCEPT !.m = "text", !.buf = <<>>]
    [] s.m = "colspec" -> IF c = "}" THEN [s EXCEPT !.m = "text"] ELSE s
    [] s.m = "env" -> LET b == Append(s.buf, c)  e == EndMark(s.nm) IN
                      IF EndsWith(b, e) THEN Put([s EXCEPT !.buf = SubSeq(b, 1, Len(b) - Len(e))], s.nm) ELSE [s EXCEPT !.buf = b]
Scan(src) == FoldLeft(Step, Start, src)
Items(src) == Flush(Scan(src)).out
=============================================================================
