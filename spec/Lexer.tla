------------------------------- MODULE Lexer -------------------------------
(* TeX's lexical rules as a character-at-a-time machine (TeX82 sections     *)
(* 331-356) over a live category table.                                    *)
(*                                                                         *)
(*   inp   characters not yet consumed (look-ahead that was reduced from    *)
(*         ^^-notation is written back, as TeX does in its buffer)          *)
(*   st    "N" new line, "M" middle of line, "S" skipping blanks            *)
(*   tab   category table: a function on the characters that differ from    *)
(*         the rule "ASCII letters are 11, everything else is 12"           *)
(*   last  the token produced last (only used for the paragraph deviation)  *)
(*                                                                         *)
(* Line ends: plasTeX reads a text whose lines end in character 10, which   *)
(* plays the role of TeX's \endlinechar.  Named deviations (documented in   *)
(* DESIGN.md): CollapsePar, EscapedNewline, EscapeAtEnd.                    *)
EXTENDS Naturals, Sequences

NL == 10
SPC == 32

IsAsciiLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Cat(tab, c) == IF c \in DOMAIN tab THEN tab[c] ELSE IF IsAsciiLetter(c) THEN 11 ELSE 12

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99

(* Reduce: rewrite a leading ^^X or ^^hh (repeatedly, TeX "reswitches" on   *)
(* the decoded character).                                                  *)
RECURSIVE Reduce(_, _)
Reduce(tab, s) ==
  IF /\ Len(s) >= 3
     /\ Cat(tab, s[1]) = 7
     /\ s[2] = s[1]
     /\ s[3] < 128
  THEN IF Len(s) >= 4 /\ HexVal(s[3]) < 16 /\ HexVal(s[4]) < 16
       THEN Reduce(tab, <<16 * HexVal(s[3]) + HexVal(s[4])>> \o SubSeq(s, 5, Len(s)))
       ELSE Reduce(tab, <<IF s[3] < 64 THEN s[3] + 64 ELSE s[3] - 64>> \o SubSeq(s, 4, Len(s)))
  ELSE s

(* Drop everything through the line end (or the end of the input). *)
RECURSIVE DropLine(_)
DropLine(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = NL THEN Tail(s) ELSE DropLine(Tail(s))
EndLine(c, rest) == IF c = NL THEN rest ELSE DropLine(rest)

(* The letters of a control word: <<name, rest>>; rest is reduced. *)
RECURSIVE Word(_, _, _)
Word(tab, name, s0) ==
  LET s == Reduce(tab, s0) IN
  IF s # <<>> /\ Cat(tab, Head(s)) = 11 THEN Word(tab, Append(name, Head(s)), Tail(s))
  ELSE <<name, s>>

(* After a character of category k has been used, a physical line end       *)
(* leaves the lexer at the start of a line whatever its category is.        *)
After(c, st) == IF c = NL THEN "N" ELSE st

NoTok == [c |-> 99, t |-> <<>>]
ParTok == [c |-> 0, t |-> <<112, 97, 114>>]
SpaceTok == [c |-> 10, t |-> <<SPC>>]

(* The successors of one lexer step: a set of <<rest, st, token>>, token =  *)
(* NoTok when the step produces none.                                       *)
Steps(tab, s0, st, last) ==
  LET s == Reduce(tab, s0)
      c == Head(s)
      r == Tail(s)
      k == Cat(tab, c)
  IN CASE k \in {9, 15} ->                                     \* ignored, invalid
            { <<r, After(c, st), NoTok>> }
       [] k = 10 -> IF st \in {"N", "S"}                       \* blank
                    THEN { <<r, After(c, st), NoTok>> }
                    ELSE { <<r, After(c, "S"), SpaceTok>> }
       [] k = 5 -> (CASE st = "N" ->                            \* line end
                          { <<EndLine(c, r), "N", ParTok>> } \cup
                          (IF last = ParTok                    \* CollapsePar
                           THEN { <<EndLine(c, r), "N", NoTok>> } ELSE {})
                     [] st = "M" -> { <<EndLine(c, r), "N", SpaceTok>> }
                     [] st = "S" -> { <<EndLine(c, r), "N", NoTok>> })
       [] k = 14 -> { <<EndLine(c, r), "N", NoTok>> }          \* comment
       [] k = 0 ->                                             \* escape
            LET s2 == Reduce(tab, r) IN
            IF s2 = <<>> THEN { <<s2, "M", [c |-> 0, t |-> <<>>]>>,      \* EscapeAtEnd
                                <<s2, "M", NoTok>> }
            ELSE LET d == Head(s2)  kd == Cat(tab, d) IN
                 (CASE kd = 11 -> LET w == Word(tab, <<d>>, Tail(s2)) IN
                                 { <<w[2], "S", [c |-> 0, t |-> w[1]]>> }
                   [] kd = 10 -> { <<Tail(s2), After(d, "S"), [c |-> 0, t |-> <<d>>]>> }
                   [] kd = 5 /\ d = NL -> { <<Tail(s2), "N", SpaceTok>>,  \* EscapedNewline
                                            <<Tail(s2), "N", [c |-> 0, t |-> <<SPC>>]>> }
                   [] OTHER -> { <<Tail(s2), After(d, "M"), [c |-> 0, t |-> <<d>>]>> })
       [] OTHER -> { <<r, After(c, "M"), [c |-> k, t |-> <<c>>]>> }

SetCat(tab, c, k) == [x \in DOMAIN tab \cup {c} |-> IF x = c THEN k ELSE tab[x]]
=============================================================================
