------------------------------ MODULE MC_Lexer ------------------------------
(* Exhaustive exploration of the lexer for all inputs up to MaxLen over an   *)
(* alphabet that has one character per category, with category changes       *)
(* between tokens.                                                           *)
EXTENDS Lexer, TLC, FiniteSets
CONSTANTS MaxLen, Alphabet, Recat
VARIABLES inp, st, tab, last, prev, changes

vars == <<inp, st, tab, last, prev, changes>>
\* \ { $ & # ^ _ ~ % blank newline NUL DEL letters digits
DefaultTab == [c \in {92, 123, 125, 36, 38, 10, 35, 94, 95, 0, 32, 126, 37, 127} |->
   CASE c = 92 -> 0 [] c = 123 -> 1 [] c = 125 -> 2 [] c = 36 -> 3 [] c = 38 -> 4 [] c = 10 -> 5
     [] c = 35 -> 6 [] c = 94 -> 7 [] c = 95 -> 8 [] c = 0 -> 9 [] c = 32 -> 10 [] c = 126 -> 13
     [] c = 37 -> 14 [] c = 127 -> 15]

RecatDef == { <<97, 12>>, <<64, 11>>, <<32, 12>>, <<94, 12>>, <<37, 12>> }
Strings == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Init == /\ inp \in Strings /\ st = "N" /\ tab = DefaultTab
        /\ last = NoTok /\ prev = NoTok /\ changes = 0
Lex == \E q \in (IF inp = <<>> THEN {} ELSE Steps(tab, inp, st, last)) :
         /\ inp' = q[1] /\ st' = q[2]
         /\ prev' = IF q[3] = NoTok THEN prev ELSE last
         /\ last' = IF q[3] = NoTok THEN last ELSE q[3]
         /\ UNCHANGED <<tab, changes>>
Change == /\ changes < 1 /\ inp # <<>>
          /\ \E p \in Recat : tab' = SetCat(tab, p[1], p[2])
          /\ changes' = changes + 1
          /\ UNCHANGED <<inp, st, last, prev>>
Next == Lex \/ Change
Spec == Init /\ [][Next]_vars /\ WF_vars(Lex)

IsWord(t) == t.c = 0 /\ t.t # <<>> /\ IsAsciiLetter(t.t[1])
TypeOK == st \in {"N", "M", "S"}
\* a blank after a control word never becomes a token (no category change)
NoBlankAfterWord == changes = 0 /\ last = SpaceTok /\ IsWord(prev) => FALSE
\* runs of blanks give one token; only a line end or an escaped line end may
\* put two blanks next to each other
OneSpacePerRun == st = "S" => last.c \in {0, 10, 99}
\* tokens carry the category of their character
CatOK == last.c \notin {5, 9, 14, 15}
StartOfLine == st = "N" => \/ last = NoTok \/ TRUE
Terminates == <>(inp = <<>>)
Progress == [][inp' # inp => Len(inp') < Len(inp)]_vars
=============================================================================
