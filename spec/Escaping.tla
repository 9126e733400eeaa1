------------------------------ MODULE Escaping ------------------------------
(* What text becomes in a page and what a reader of HTML makes of it.         *)
(*   Text / Attr / High: how a text is put into an element, into an           *)
(*   attribute value, and how characters above 127 are spelled in a page.     *)
(*   Read: the tokens of a page (start tags with attributes, end tags,        *)
(*   comments, text), after the tokenizer of the HTML standard, restricted    *)
(*   to the states a page without parse errors in its tags passes through.    *)
(*   Display: what a piece of LaTeX text shows.                               *)
(*   Canon: the tokens of a page with the pieces of document text in it       *)
(*   checked against what they show and replaced by their numbers.            *)
(* Everything is a sequence of code points.                                   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Codes

(* ---------------------------------------------------------------- writing *)
Flat(f(_), s) == FoldLeft(LAMBDA a, c : a \o f(c), <<>>, s)
TextChar(c) == CASE c = 38 -> AmpRef [] c = 60 -> LtRef [] c = 62 -> GtRef [] OTHER -> <<c>>
AttrChar(c) == CASE c = 34 -> QuotRef [] OTHER -> TextChar(c)
Text(s) == Flat(TextChar, s)
Attr(s) == Flat(AttrChar, s)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
HighChar(c) == IF c > 127 THEN <<38, 35>> \o Dec(c) \o <<59>> ELSE <<c>>
High(s) == Flat(HighChar, s)

(* ------------------------------------------------------- character references *)
Digit(c) == c \in 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Letter(c) == Lower(c) \in 97..122
HexV(c) == IF Digit(c) THEN c - 48 ELSE Lower(c) - 87
Hex(c) == Digit(c) \/ Lower(c) \in 97..102
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE -1
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

RECURSIVE Run(_, _, _)                 (* the end of the run of digits *)
Run(s, i, hex) == IF i <= Len(s) /\ (IF hex THEN Hex(s[i]) ELSE Digit(s[i])) THEN Run(s, i + 1, hex) ELSE i
Big == 1114112
Val(s, b) == FoldLeft(LAMBDA a, c : IF a >= Big THEN Big ELSE (a * b) + HexV(c), 0, s)
Char(v) == IF v = 0 \/ v >= Big \/ v \in 55296..57343 THEN 65533 ELSE v

(* the reference at position i of s (s[i] is an ampersand): <<characters, next position>> *)
RefAt(s, i, inattr) ==
  IF At(s, i + 1) = 35
  THEN LET hex == Lower(At(s, i + 2)) = 120
           a == IF hex THEN i + 3 ELSE i + 2
           b == Run(s, a, hex)
       IN IF b = a THEN << <<38>>, i + 1 >>
          ELSE << <<Char(Val(SubSeq(s, a, b - 1), IF hex THEN 16 ELSE 10))>>, IF At(s, b) = 59 THEN b + 1 ELSE b >>
  ELSE LET m == {k \in DOMAIN Entities : LET e == Entities[k] IN StartsAt(s, i + 1, e.n) /\ (e.old \/ At(s, i + 1 + Len(e.n)) = 59)}
       IN IF m = {} THEN << <<38>>, i + 1 >>
          ELSE LET k == CHOOSE k \in m : \A j \in m : Len(Entities[k].n) >= Len(Entities[j].n)
                   b == i + 1 + Len(Entities[k].n)
                   x == At(s, b)
               IN IF x = 59 THEN << <<Entities[k].c>>, b + 1 >>
                  ELSE IF inattr /\ (x = 61 \/ Digit(x) \/ Letter(x)) THEN << <<38>>, i + 1 >>
                  ELSE << <<Entities[k].c>>, b >>

RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, i, inattr) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 38 THEN <<s[i]>> \o DecodeFrom(s, i + 1, inattr)
  ELSE LET r == RefAt(s, i, inattr) IN r[1] \o DecodeFrom(s, r[2], inattr)
Decode(s, inattr) == IF \A i \in DOMAIN s : s[i] # 38 THEN s ELSE DecodeFrom(s, 1, inattr)

(* ---------------------------------------------------------------- reading *)
Space(c) == c \in {9, 10, 12, 13, 32}
Start == [m |-> "data", buf |-> <<>>, out |-> <<>>, tag |-> <<>>, cl |-> FALSE, at |-> <<>>, an |-> <<>>, raw |-> <<>>]

Emit(st, e) == [st EXCEPT !.out = Append(@, e), !.buf = <<>>]
FlushText(st) == IF st.buf = <<>> THEN st
                 ELSE Emit(st, <<"t", IF st.m = "raw" /\ st.raw # TitleName THEN st.buf ELSE Decode(st.buf, FALSE)>>)
Push(st, c) == [st EXCEPT !.buf = Append(@, c)]

(* an attribute is complete *)
PutAttr(st, v) == [st EXCEPT !.at = IF \E i \in DOMAIN @ : @[i][1] = st.an THEN @ ELSE Append(@, <<st.an, v>>), !.an = <<>>, !.buf = <<>>]
CloseTag(st) == LET e == IF st.cl THEN <<"/", st.tag>> ELSE <<"<", st.tag, st.at>>
                    x == [st EXCEPT !.out = Append(@, e), !.buf = <<>>, !.at = <<>>, !.an = <<>>]
                IN IF ~st.cl /\ st.tag \in RawNames THEN [x EXCEPT !.m = "raw", !.raw = st.tag] ELSE [x EXCEPT !.m = "data"]

Step(st, c) ==
  CASE st.m = "data" -> IF c = 60 THEN [st EXCEPT !.m = "open"] ELSE Push(st, c)
    [] st.m = "open" ->
         IF Letter(c) THEN [FlushText([st EXCEPT !.m = "data"]) EXCEPT !.m = "name", !.tag = <<Lower(c)>>, !.cl = FALSE]
         ELSE IF c = 47 THEN [st EXCEPT !.m = "endopen"]
         ELSE IF c = 33 THEN [FlushText([st EXCEPT !.m = "data"]) EXCEPT !.m = "decl"]
         ELSE IF c = 63 THEN [FlushText([st EXCEPT !.m = "data"]) EXCEPT !.m = "bogus", !.buf = <<63>>]
         ELSE IF c = 60 THEN Push(st, 60)
         ELSE [Push(Push(st, 60), c) EXCEPT !.m = "data"]
    [] st.m = "endopen" ->
         IF Letter(c) THEN [FlushText([st EXCEPT !.m = "data"]) EXCEPT !.m = "name", !.tag = <<Lower(c)>>, !.cl = TRUE]
         ELSE IF c = 62 THEN [st EXCEPT !.m = "data"]
         ELSE [FlushText([st EXCEPT !.m = "data"]) EXCEPT !.m = "bogus", !.buf = <<c>>]
    [] st.m = "name" ->
         IF Space(c) \/ c = 47 THEN [st EXCEPT !.m = "attrs"]
         ELSE IF c = 62 THEN CloseTag(st)
         ELSE [st EXCEPT !.tag = Append(@, Lower(c))]
    [] st.m = "attrs" ->
         IF Space(c) \/ c = 47 THEN st
         ELSE IF c = 62 THEN CloseTag(st)
         ELSE [st EXCEPT !.m = "aname", !.an = <<Lower(c)>>, !.buf = <<>>]
    [] st.m = "aname" ->
         IF c = 61 THEN [st EXCEPT !.m = "value"]
         ELSE IF Space(c) THEN [st EXCEPT !.m = "afteraname"]
         ELSE IF c = 47 THEN [PutAttr(st, <<>>) EXCEPT !.m = "attrs"]
         ELSE IF c = 62 THEN CloseTag(PutAttr(st, <<>>))
         ELSE [st EXCEPT !.an = Append(@, Lower(c))]
    [] st.m = "afteraname" ->
         IF Space(c) THEN st
         ELSE IF c = 61 THEN [st EXCEPT !.m = "value"]
         ELSE IF c = 47 THEN [PutAttr(st, <<>>) EXCEPT !.m = "attrs"]
         ELSE IF c = 62 THEN CloseTag(PutAttr(st, <<>>))
         ELSE [PutAttr(st, <<>>) EXCEPT !.m = "aname", !.an = <<Lower(c)>>]
    [] st.m = "value" ->
         IF Space(c) THEN st
         ELSE IF c = 34 THEN [st EXCEPT !.m = "dq", !.buf = <<>>]
         ELSE IF c = 39 THEN [st EXCEPT !.m = "sq", !.buf = <<>>]
         ELSE IF c = 62 THEN CloseTag(PutAttr(st, <<>>))
         ELSE [st EXCEPT !.m = "uq", !.buf = <<c>>]
    [] st.m = "dq" -> IF c = 34 THEN [PutAttr(st, Decode(st.buf, TRUE)) EXCEPT !.m = "attrs"] ELSE Push(st, c)
    [] st.m = "sq" -> IF c = 39 THEN [PutAttr(st, Decode(st.buf, TRUE)) EXCEPT !.m = "attrs"] ELSE Push(st, c)
    [] st.m = "uq" -> IF Space(c) THEN [PutAttr(st, Decode(st.buf, TRUE)) EXCEPT !.m = "attrs"]
                      ELSE IF c = 62 THEN CloseTag(PutAttr(st, Decode(st.buf, TRUE))) ELSE Push(st, c)
    [] st.m = "decl" ->                     (* <! ... *)
         IF st.buf = <<45>> /\ c = 45 THEN [st EXCEPT !.m = "comment", !.buf = <<>>]
         ELSE IF st.buf = <<>> /\ c = 45 THEN Push(st, c)
         ELSE IF c = 62 THEN [Emit(st, <<"!", st.buf>>) EXCEPT !.m = "data"]
         ELSE [Push(st, c) EXCEPT !.m = "bogus"]
    [] st.m = "bogus" -> IF c = 62 THEN [Emit(st, <<"!", st.buf>>) EXCEPT !.m = "data"] ELSE Push(st, c)
    [] st.m = "comment" ->
         IF c = 62 /\ (st.buf \in {<<>>, <<45>>} \/ (Len(st.buf) >= 2 /\ st.buf[Len(st.buf)] = 45 /\ st.buf[Len(st.buf) - 1] = 45))
         THEN [Emit(st, <<"!", SubSeq(st.buf, 1, Len(st.buf) - 2)>>) EXCEPT !.m = "data"]
         ELSE Push(st, c)
    [] st.m = "raw" ->                      (* script, style, title: text up to the end tag of the element *)
         LET b == Append(st.buf, c)
             n == Len(st.raw) IN
         IF Lower(c) = st.raw[n] /\ Len(b) >= n + 2 /\ [i \in 1..n + 2 |-> Lower(b[Len(b) - n - 2 + i])] = <<60, 47>> \o st.raw
         THEN [FlushText([st EXCEPT !.buf = SubSeq(b, 1, Len(b) - n - 2)]) EXCEPT !.m = "attrs", !.tag = st.raw, !.cl = TRUE]
         ELSE [st EXCEPT !.buf = b]

Finish(st) == IF st.m = "data" THEN FlushText(st).out ELSE Append(FlushText(st).out, <<"unfinished", st.m>>)
Read(page) == Finish(FoldLeft(Step, Start, page))

(* ---------------------------------------------------------------- LaTeX text *)
RECURSIVE Lig(_, _)
Lig(s, i) == IF i > Len(s) THEN <<>>
             ELSE LET m == {k \in DOMAIN Ligatures : StartsAt(s, i, Ligatures[k][1])} IN
                  IF m = {} THEN <<s[i]>> \o Lig(s, i + 1)
                  ELSE LET k == CHOOSE k \in m : \A j \in m : k <= j
                       IN <<Ligatures[k][2]>> \o Lig(s, i + Len(Ligatures[k][1]))
Display(kind, s) == IF kind = "text" THEN Lig(s, 1) ELSE s

(* ---------------------------------------------------------------- pieces of document text in a page *)
(* Piece n is  Q m d d d q <text> q d d d m Q  with the digits of n. *)
Three(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
OpenMark(n) == <<81, 109>> \o Three(n) \o <<113>>
CloseMark(n) == <<113>> \o Three(n) \o <<109, 81>>
Piece(n) == -1000 - n
Wrong(n) == -3000 - n                     (* a piece that is not what it should be *)

RECURSIVE Pieces(_, _, _)
Pieces(s, i, disp) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 81 \/ At(s, i + 1) # 109 \/ ~(Digit(At(s, i + 2)) /\ Digit(At(s, i + 3)) /\ Digit(At(s, i + 4))) \/ At(s, i + 5) # 113
  THEN <<s[i]>> \o Pieces(s, i + 1, disp)
  ELSE LET n == ((s[i + 2] - 48) * 100) + ((s[i + 3] - 48) * 10) + (s[i + 4] - 48)
           d == disp[n + 1] \o CloseMark(n)
       IN IF StartsAt(s, i + 6, d) THEN <<Piece(n)>> \o Pieces(s, i + 6 + Len(d), disp)
          ELSE <<Wrong(n)>> \o Pieces(s, i + 6, disp)
CanonText(s, disp) == IF ~\E i \in DOMAIN s : s[i] = 81 /\ At(s, i + 1) = 109 THEN s ELSE Pieces(s, 1, disp)
CanonToken(e, disp) ==
  CASE e[1] = "t" -> <<"t", CanonText(e[2], disp)>>
    [] e[1] = "!" -> <<"!", CanonText(e[2], disp)>>
    [] e[1] = "<" -> <<"<", e[2], [i \in DOMAIN e[3] |-> <<e[3][i][1], CanonText(e[3][i][2], disp)>>]>>
    [] OTHER -> e
Canon(page, disp) == LET t == TLCEval(Read(page)) IN [i \in DOMAIN t |-> CanonToken(t[i], disp)]
=============================================================================
