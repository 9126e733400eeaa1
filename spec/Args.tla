-------------------------------- MODULE Args --------------------------------
(* C05: how a macro's signature consumes its invocation, and what TeX's      *)
(* number, dimension and glue scanners read.                                  *)
(*                                                                            *)
(* The state of both machines is the remaining token sequence.  A token is a  *)
(* string: a character, " " for a blank, "{" / "}" for a group, "\\name" for   *)
(* a control sequence.  Every reader maps a token sequence to                  *)
(* [ok, v, r]: whether the input conforms, the value, and what remains.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Units

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
DigitVal == [d \in {Digits[i] : i \in 1..16} |-> (CHOOSE i \in 1..16 : Digits[i] = d) - 1]
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Low == [c \in {Upper[i] : i \in 1..26} \cup {Lower[i] : i \in 1..26} |->
          Lower[CHOOSE i \in 1..26 : Upper[i] = c \/ Lower[i] = c]]
CharCode == [c \in DOMAIN DigitVal \cup DOMAIN Low \cup {"+", "-", "*", "[", "]", "%"} |->
   IF \E i \in 1..26 : Lower[i] = c THEN 96 + (CHOOSE i \in 1..26 : Lower[i] = c)
   ELSE IF \E i \in 1..26 : Upper[i] = c THEN 64 + (CHOOSE i \in 1..26 : Upper[i] = c)
   ELSE IF c \in DOMAIN DigitVal THEN 48 + DigitVal[c]
   ELSE [x \in {"+", "-", "*", "[", "]", "%"} |->
           CASE x = "+" -> 43 [] x = "-" -> 45 [] x = "*" -> 42 [] x = "[" -> 91 [] x = "]" -> 93 [] OTHER -> 37][c]]

(* The registers and macros of the environment that the harness sets up.      *)
G(w, s, so, h, ho) == [w |-> w, s |-> s, so |-> so, h |-> h, ho |-> ho]
Pt == 65536
Reg == ("\\qca" :> [k |-> "count", v |-> 7]) @@
       ("\\qcb" :> [k |-> "count", v |-> -3]) @@
       ("\\qda" :> [k |-> "dimen", v |-> 10 * Pt]) @@
       ("\\qdb" :> [k |-> "dimen", v |-> -98304]) @@
       ("\\qsa" :> [k |-> "skip", v |-> 3 * Pt, g |-> G(3 * Pt, Pt, 0, 2 * Pt, 1)]) @@
       ("\\qsb" :> [k |-> "skip", v |-> -2 * Pt, g |-> G(-2 * Pt, 3 * Pt, 2, 0, 0)])
Mac == ("\\qma" :> <<"2">>) @@ ("\\qmb" :> <<"p", "t">>) @@ ("\\qmc" :> <<"1", "p", "t", " ", "p", "l", "u", "s", " ", "3", "p", "t">>) @@
       ("\\qme" :> <<>>) @@ ("\\qmd" :> <<"-", "\\qma">>) @@ ("\\qmf" :> <<"a", "\\qma", "b">>)
\* control sequences whose name is one character (for character codes)
CsChar == ("\\a" :> "a") @@ ("\\%" :> "%") @@ ("\\Z" :> "Z")

H(ts) == IF ts = <<>> THEN "" ELSE ts[1]
RECURSIVE X(_)
X(ts) == IF H(ts) \in DOMAIN Mac THEN X(Mac[H(ts)] \o Tail(ts)) ELSE ts        \* the head is not expandable
RECURSIVE XAll(_)
XAll(ts) == LET t == X(ts) IN IF t = <<>> THEN t ELSE <<t[1]>> \o XAll(Tail(t))
RECURSIVE SkipSp(_)
SkipSp(ts) == LET t == X(ts) IN IF H(t) = " " THEN SkipSp(Tail(t)) ELSE t
Skip1(ts) == LET t == X(ts) IN IF H(t) = " " THEN Tail(t) ELSE t
No(ts) == [ok |-> FALSE, v |-> 0, r |-> ts]

RECURSIVE Signs(_, _)
Signs(ts, sg) == LET t == X(ts) IN
   IF H(t) \in {" ", "+"} THEN Signs(Tail(t), sg) ELSE IF H(t) = "-" THEN Signs(Tail(t), -sg) ELSE [s |-> sg, r |-> t]

\* digits of a base: value, count of digits, rest (the rest starts at the first non-digit, expanded)
RECURSIVE Run(_, _, _, _)
Run(ts, base, v, n) == LET t == X(ts) IN
   IF H(t) \in DOMAIN DigitVal /\ DigitVal[H(t)] < base /\ v < 100000000 THEN Run(Tail(t), base, v * base + DigitVal[H(t)], n + 1)
   ELSE [v |-> v, n |-> n, r |-> t]
RECURSIVE DigitSeq(_)
DigitSeq(ts) == LET t == X(ts) IN
   IF H(t) \in DOMAIN DigitVal /\ DigitVal[H(t)] < 10
   THEN LET d == DigitSeq(Tail(t)) IN [ds |-> <<DigitVal[H(t)]>> \o d.ds, r |-> d.r] ELSE [ds |-> <<>>, r |-> t]

\* an unsigned integer constant (t is expanded)
Const(t) ==
  LET b == CASE H(t) = "'" -> 8 [] H(t) = "\"" -> 16 [] OTHER -> 10
      d == Run(IF b = 10 THEN t ELSE Tail(t), b, 0, 0)
  IN IF H(t) = "`"
     THEN (IF Len(t) < 2 THEN No(t)
           ELSE LET c == t[2] IN
                IF c \in DOMAIN CharCode THEN [ok |-> TRUE, v |-> CharCode[c], r |-> Skip1(SubSeq(t, 3, Len(t)))]
                ELSE IF c \in DOMAIN CsChar THEN [ok |-> TRUE, v |-> CharCode[CsChar[c]], r |-> Skip1(SubSeq(t, 3, Len(t)))]
                ELSE No(t))
     ELSE IF d.n = 0 THEN No(t) ELSE [ok |-> TRUE, v |-> d.v, r |-> Skip1(d.r)]

\* plasTeX lets an integer be multiplied by a register that follows it (pinned by its
\* unit tests); TeX would leave the register alone, so such input is outside the model
ScanInt(ts) ==
  LET s == Signs(ts, 1)
      t == s.r
  IN IF H(t) \in DOMAIN Reg THEN [ok |-> TRUE, v |-> s.s * Reg[H(t)].v, r |-> Tail(t)]
     ELSE LET c == Const(t)  d == Run(t, 10, 0, 0) IN
          IF ~c.ok \/ (d.n > 0 /\ H(d.r) \in DOMAIN Reg) THEN No(ts) ELSE [c EXCEPT !.v = s.s * c.v]

\* decimal constant: integer part and 2^-16ths; int tells whether it has no point
Point(t) == H(t) \in {".", ","}
Factor(t) ==
  IF Point(t) \/ (H(t) \in DOMAIN DigitVal /\ DigitVal[H(t)] < 10)
  THEN LET i == Run(t, 10, 0, 0) IN
       IF ~Point(i.r) THEN [ok |-> i.n > 0, v |-> i.v, f |-> 0, r |-> Skip1(i.r)]
       ELSE LET d == DigitSeq(Tail(i.r)) IN IF Len(d.ds) > 5 THEN [ok |-> FALSE, v |-> 0, f |-> 0, r |-> t] ELSE [ok |-> TRUE, v |-> i.v, f |-> RoundDec(d.ds, 0), r |-> Skip1(d.r)]
  ELSE IF H(t) \in {"'", "\"", "`"} THEN LET c == Const(t) IN [ok |-> c.ok, v |-> c.v, f |-> 0, r |-> c.r]
  ELSE [ok |-> FALSE, v |-> 0, f |-> 0, r |-> t]
ScanDecimal(ts) ==
  LET s == Signs(ts, 1)  c == Factor(s.r) IN
  IF ~c.ok \/ c.v > 16383 THEN No(ts) ELSE [ok |-> TRUE, v |-> s.s * (c.v * Pt + c.f), r |-> c.r]

\* keywords: leading blanks vanish whether or not the keyword is there; case does not matter
RECURSIVE Match(_, _)
Match(ts, w) ==
  IF w = <<>> THEN [ok |-> TRUE, r |-> ts]
  ELSE LET t == X(ts) IN
       IF H(t) \in DOMAIN Low /\ Low[H(t)] = w[1]
       THEN LET m == Match(Tail(t), Tail(w)) IN IF m.ok THEN m ELSE [ok |-> FALSE, r |-> <<t[1]>> \o m.r]
       ELSE [ok |-> FALSE, r |-> t]
Keyword(ts, w) == Match(SkipSp(ts), w)
Physical == <<"pt", "pc", "in", "bp", "cm", "mm", "dd", "cc", "sp">>
Letters == ("pt" :> <<"p", "t">>) @@ ("pc" :> <<"p", "c">>) @@ ("in" :> <<"i", "n">>) @@ ("bp" :> <<"b", "p">>) @@
           ("cm" :> <<"c", "m">>) @@ ("mm" :> <<"m", "m">>) @@ ("dd" :> <<"d", "d">>) @@ ("cc" :> <<"c", "c">>) @@
           ("sp" :> <<"s", "p">>) @@ ("em" :> <<"e", "m">>) @@ ("ex" :> <<"e", "x">>) @@ ("mu" :> <<"m", "u">>) @@
           ("true" :> <<"t", "r", "u", "e">>) @@ ("plus" :> <<"p", "l", "u", "s">>) @@ ("minus" :> <<"m", "i", "n", "u", "s">>) @@
           ("fil" :> <<"f", "i", "l">>) @@ ("l" :> <<"l">>)
RECURSIVE FindUnit(_, _)
FindUnit(ts, us) == IF us = <<>> THEN [u |-> "", r |-> ts]
                    ELSE LET m == Keyword(ts, Letters[us[1]]) IN
                         IF m.ok THEN [u |-> us[1], r |-> m.r] ELSE FindUnit(m.r, Tail(us))
RECURSIVE Ls(_, _)
Ls(ts, n) == LET m == Keyword(ts, Letters["l"]) IN IF m.ok THEN Ls(m.r, n + 1) ELSE [n |-> n, r |-> m.r]

\* (v + f/65536) * x for an internal unit x, in small pieces (TLC has 32 bit integers)
TimesFrac(x, f) == LET a == IF x < 0 THEN -x ELSE x
                       xh == a \div Pt  xl == a % Pt  fh == f \div 256  fl == f % 256
                       r == xh * f + ((xl * fh) \div 256) + ((((xl * fh) % 256) * 256 + xl * fl) \div Pt)
                   IN IF x < 0 THEN -r ELSE r
Abs(x) == IF x < 0 THEN -x ELSE x

\* What plasTeX keeps of a dimension is a floating point number of scaled points; TeX
\* rounds the fraction to 2^-16 units and truncates.  tol is the width of that rounding.
DimNo(ts) == [ok |-> FALSE, v |-> 0, o |-> 0, tol |-> 0, r |-> ts]
Tol(u, f) == IF f = 0 THEN 1 ELSE CASE u = "in" -> 38 [] u = "pc" -> 8 [] u = "cm" -> 16 [] u = "cc" -> 8 [] OTHER -> 3
\* a unit of measure for the factor v + f/65536
Measure(v, f, ts, mode) ==        \* mode: "dim" | "fil" | "mu" | "mufil"
  LET t == SkipSp(ts)
      fil == Keyword(t, Letters["fil"])
      l == Ls(fil.r, 0)
      e == FindUnit(t, <<"em", "ex">>)
      tr == Keyword(t, Letters["true"])
      p == FindUnit(tr.r, Physical)
      m == FindUnit(t, <<"mu">>)
  IN IF mode \in {"fil", "mufil"} /\ fil.ok
     THEN (IF v > 16383 \/ l.n > 2 THEN DimNo(ts) ELSE [ok |-> TRUE, v |-> v * Pt + f, o |-> 1 + l.n, tol |-> 1, r |-> Skip1(l.r)])
     ELSE IF mode \in {"mu", "mufil"}
     THEN (IF m.u = "mu" /\ v <= 16383 THEN [ok |-> TRUE, v |-> v * Pt + f, o |-> 0, tol |-> 1, r |-> Skip1(m.r)] ELSE DimNo(ts))
     ELSE IF H(t) \in DOMAIN Reg
     THEN LET x == Reg[H(t)].v IN
          IF v > 1000 THEN DimNo(ts) ELSE [ok |-> TRUE, v |-> v * x + TimesFrac(x, f), o |-> 0, tol |-> 2 + (Abs(x) \div 131072), r |-> Tail(t)]
     ELSE IF e.u # ""
     THEN LET k == IF e.u = "em" THEN 11 ELSE 5 IN
          IF v > 1000 THEN DimNo(ts) ELSE [ok |-> TRUE, v |-> v * k * Pt + f * k, o |-> 0, tol |-> 8, r |-> Skip1(e.r)]
     ELSE IF p.u # "" /\ v <= (CASE p.u = "in" -> 226 [] p.u \in {"pc", "cc"} -> 1200 [] p.u = "cm" -> 575 [] p.u \in {"mm", "sp"} -> 100000000 [] OTHER -> 15000)
             /\ (p.u # "mm" \/ v <= 5000) /\ (p.u # "sp" \/ f = 0)
     THEN [ok |-> TRUE, v |-> Scaled(v, f, p.u), o |-> 0, tol |-> Tol(p.u, f), r |-> Skip1(p.r)]
     ELSE DimNo(ts)
\* after the signs have been read (t is expanded)
Unsigned(t, mode) ==
  IF H(t) \in DOMAIN Reg
  THEN LET x == Reg[H(t)] IN
       IF x.k = "count" THEN (LET a == Measure(Abs(x.v), 0, Tail(t), mode) IN IF x.v < 0 THEN [a EXCEPT !.v = -a.v] ELSE a)
       ELSE IF mode \in {"dim", "fil"} THEN [ok |-> TRUE, v |-> x.v, o |-> 0, tol |-> 1, r |-> Tail(t)] ELSE DimNo(t)
  ELSE LET c == Factor(t) IN IF c.ok THEN Measure(c.v, c.f, c.r, mode) ELSE DimNo(t)
ScanDim(ts, mode) == LET s == Signs(ts, 1)  d == Unsigned(s.r, mode) IN [d EXCEPT !.v = s.s * d.v]

GNo(ts) == [ok |-> FALSE, w |-> DimNo(ts), s |-> DimNo(ts), h |-> DimNo(ts), sp |-> FALSE, hp |-> FALSE, r |-> ts]
D0(v, o) == [ok |-> TRUE, v |-> v, o |-> o, tol |-> 1, r |-> <<>>]
ScanGlue(ts, mu) ==
  LET s == Signs(ts, 1)
      m1 == IF mu THEN "mu" ELSE "dim"
      m2 == IF mu THEN "mufil" ELSE "fil"
      x == IF H(s.r) \in DOMAIN Reg THEN Reg[H(s.r)] ELSE [k |-> "none"]
  IN IF x.k = "skip" /\ ~mu
     THEN [ok |-> TRUE, w |-> D0(s.s * x.g.w, 0), s |-> D0(s.s * x.g.s, x.g.so), h |-> D0(s.s * x.g.h, x.g.ho), r |-> Tail(s.r)]
     ELSE LET w0 == Unsigned(s.r, m1)
              w == [w0 EXCEPT !.v = s.s * w0.v]
              p == Keyword(w.r, Letters["plus"])
              st == IF p.ok THEN ScanDim(p.r, m2) ELSE [D0(0, 0) EXCEPT !.r = p.r]
              m == Keyword(st.r, Letters["minus"])
              sh == IF m.ok THEN ScanDim(m.r, m2) ELSE [D0(0, 0) EXCEPT !.r = m.r]
          IN [ok |-> w.ok /\ st.ok /\ sh.ok, w |-> w, s |-> st, h |-> sh, r |-> sh.r]

-----------------------------------------------------------------------------
(* Signatures.  An argument is [k |-> "mod", c |-> char]                       *)
(*                           | [k |-> "opt", o |-> open, c |-> close, t, ...]  *)
(*                           | [k |-> "man", t |-> type, ...].                 *)
Nil == [k |-> "nil"]
Text(ts) == SelectSeq(ts, LAMBDA x : x \notin {"{", "}"})
RECURSIVE TrimL(_), TrimR(_)
TrimL(ts) == IF ts # <<>> /\ ts[1] = " " THEN TrimL(Tail(ts)) ELSE ts
TrimR(ts) == IF ts # <<>> /\ ts[Len(ts)] = " " THEN TrimR(SubSeq(ts, 1, Len(ts) - 1)) ELSE ts
Trim(ts) == TrimL(TrimR(ts))
RECURSIVE SkipRaw(_)
SkipRaw(ts) == IF H(ts) = " " THEN SkipRaw(Tail(ts)) ELSE ts       \* looking for a delimiter does not expand

\* position of the end of a {...} group: ts starts just after "{" (depth 1)
RECURSIVE GroupEnd(_, _, _)
GroupEnd(ts, i, d) == IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "{" THEN GroupEnd(ts, i + 1, d + 1)
   ELSE IF ts[i] = "}" THEN (IF d = 1 THEN i ELSE GroupEnd(ts, i + 1, d - 1))
   ELSE GroupEnd(ts, i + 1, d)
\* position of the closing delimiter: nested delimiters match, those inside braces do not count
RECURSIVE DelimEnd(_, _, _, _, _, _)
DelimEnd(ts, i, o, c, d, b) == IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "{" THEN DelimEnd(ts, i + 1, o, c, d, b + 1)
   ELSE IF ts[i] = "}" THEN (IF b = 0 THEN 0 ELSE DelimEnd(ts, i + 1, o, c, d, b - 1))
   ELSE IF b > 0 THEN DelimEnd(ts, i + 1, o, c, d, b)
   ELSE IF ts[i] = o THEN DelimEnd(ts, i + 1, o, c, d + 1, b)
   ELSE IF ts[i] = c THEN (IF d = 1 THEN i ELSE DelimEnd(ts, i + 1, o, c, d - 1, b))
   ELSE DelimEnd(ts, i + 1, o, c, d, b)

\* split at delimiters outside braces
RECURSIVE Split(_, _, _, _)
Split(ts, d, b, cur) ==
   IF ts = <<>> THEN <<cur>>
   ELSE LET x == ts[1] IN
        IF x = d /\ b = 0 THEN <<cur>> \o Split(Tail(ts), d, b, <<>>)
        ELSE Split(Tail(ts), d, IF x = "{" THEN b + 1 ELSE IF x = "}" THEN b - 1 ELSE b, Append(cur, x))
RECURSIVE FindEq(_, _, _)
FindEq(ts, i, b) == IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "=" /\ b = 0 THEN i
   ELSE FindEq(ts, i + 1, IF ts[i] = "{" THEN b + 1 ELSE IF ts[i] = "}" THEN b - 1 ELSE b)

Done(r) == SkipSp(r) = <<>>
Bad == [k |-> "bad"]
Num(c) == IF c.ok /\ Done(c.r) THEN [k |-> "int", v |-> c.v] ELSE Bad
Flo(c) == IF c.ok /\ Done(c.r) THEN [k |-> "float", v |-> c.v] ELSE Bad
Dim(c) == IF c.ok /\ Done(c.r) THEN [k |-> "dimen", v |-> c.v, o |-> c.o, tol |-> c.tol] ELSE Bad
Scalar(ts, t) ==
   CASE t \in {"", "str"} -> (LET x == XAll(ts) IN
          IF \E i \in 1..Len(x) : Len(x[i]) > 1 THEN Bad ELSE [k |-> "text", s |-> Trim(Text(x))])
     [] t \in {"int", "number", "count"} -> Num(ScanInt(ts))
     [] t \in {"float", "double"} -> Flo(ScanDecimal(ts))
     [] t \in {"dimen", "length", "dimension"} -> Dim(ScanDim(ts, "dim"))
     [] OTHER -> Bad
Or(x, d) == IF x = "" THEN d ELSE x
RECURSIVE DictItems(_, _)
DictItems(items, sub) ==
   IF items = <<>> THEN <<>>
   ELSE LET it == items[1]
            e == FindEq(it, 1, 0)
            key == Trim(Text(IF e = 0 THEN it ELSE SubSeq(it, 1, e - 1)))
            val == IF \E i \in 1..Len(key) : Len(key[i]) > 1 THEN Bad ELSE IF e = 0 THEN [k |-> "true"] ELSE Scalar(SubSeq(it, e + 1, Len(it)), sub)
            rest == DictItems(Tail(items), sub)
        IN IF key = <<>> /\ e = 0 THEN rest ELSE <<[key |-> key, val |-> val]>> \o rest
\* the value that a declaration gives to the tokens written
Cast(ts, a) ==
   CASE a.t = "nox" -> [k |-> "toks", s |-> ts]
     [] a.t = "cs" -> IF Len(ts) = 1 /\ Len(ts[1]) > 1 THEN [k |-> "toks", s |-> ts] ELSE Bad
     [] a.t = "list" -> LET p == Split(XAll(ts), Or(a.d, ","), 0, <<>>) IN
                        LET v == [i \in 1..Len(p) |-> Scalar(p[i], a.sub)] IN
                        IF \E i \in 1..Len(v) : v[i] = Bad THEN Bad ELSE [k |-> "list", s |-> v]
     [] a.t = "dict" -> LET d == DictItems(Split(XAll(ts), Or(a.d, ","), 0, <<>>), a.sub) IN
                        IF (\E i, j \in 1..Len(d) : i # j /\ d[i].key = d[j].key) \/ (\E i \in 1..Len(d) : d[i].val = Bad) THEN Bad ELSE [k |-> "dict", s |-> d]
     [] OTHER -> Scalar(ts, a.t)

Scanned == {"Number", "Dimen", "Glue", "MuDimen", "MuGlue"}
\* one argument: [ok, v, r]
ReadArg(ts0, a) ==
  LET ts == SkipRaw(ts0)
      Res(v, r) == [ok |-> v # Bad, v |-> v, r |-> r]
  IN CASE a.k = "mod" -> IF H(ts) = a.c THEN Res([k |-> "text", s |-> <<a.c>>], Tail(ts)) ELSE Res(Nil, ts)
       [] a.k = "opt" -> IF H(ts) # a.o THEN Res(Nil, ts)
                         ELSE LET e == DelimEnd(ts, 2, a.o, a.c, 1, 0) IN
                              IF e = 0 THEN Res(Bad, ts) ELSE Res(Cast(SubSeq(ts, 2, e - 1), a), SubSeq(ts, e + 1, Len(ts)))
       [] a.t \in Scanned -> (
            CASE a.t = "Number" -> (LET c == ScanInt(ts) IN IF c.ok THEN Res([k |-> "int", v |-> c.v], c.r) ELSE Res(Bad, ts))
              [] a.t \in {"Dimen", "MuDimen"} -> (LET c == ScanDim(ts, IF a.t = "Dimen" THEN "dim" ELSE "mu") IN
                     IF c.ok THEN Res([k |-> "dimen", v |-> c.v, o |-> c.o, tol |-> c.tol], c.r) ELSE Res(Bad, ts))
              [] OTHER -> (LET c == ScanGlue(ts, a.t = "MuGlue") IN
                     IF c.ok THEN Res([k |-> "glue", w |-> c.w.v, wt |-> c.w.tol, s |-> c.s.v, so |-> c.s.o, st |-> c.s.tol,
                                       h |-> c.h.v, ho |-> c.h.o, ht |-> c.h.tol], c.r) ELSE Res(Bad, ts)))
       [] a.t = "Tok" -> IF ts = <<>> THEN Res(Bad, ts) ELSE Res([k |-> "toks", s |-> <<ts[1]>>], Tail(ts))
       [] a.t = "XTok" -> (IF ts = <<>> THEN Res(Bad, ts)
                           ELSE IF ts[1] = "{"
                           THEN LET e == GroupEnd(ts, 2, 1)  c == XAll(SubSeq(ts, 2, e - 1)) IN
                                IF e = 0 \/ Len(c) # 1 \/ c[1] \in DOMAIN Reg THEN Res(Bad, ts) ELSE Res([k |-> "text", s |-> Text(c)], SubSeq(ts, e + 1, Len(ts)))
                           ELSE LET c == XAll(<<ts[1]>>) IN IF Len(c) # 1 THEN Res(Bad, ts) ELSE Res([k |-> "text", s |-> c], Tail(ts)))
       [] a.t = "Args" -> LET n == IF \E i \in 1..Len(ts) : ts[i] = "{" THEN (CHOOSE i \in 1..Len(ts) : ts[i] = "{" /\ \A j \in 1..(i - 1) : ts[j] # "{") - 1
                                   ELSE -1 IN
                          IF n = -1 THEN Res(Bad, ts) ELSE Res([k |-> "toks", s |-> SubSeq(ts, 1, n)], SubSeq(ts, n + 1, Len(ts)))
       [] OTHER -> IF H(ts) \in {"", "}"} THEN Res(Bad, ts)
                   ELSE IF H(ts) = "{"
                   THEN LET e == GroupEnd(ts, 2, 1) IN
                        IF e = 0 THEN Res(Bad, ts) ELSE Res(Cast(SubSeq(ts, 2, e - 1), a), SubSeq(ts, e + 1, Len(ts)))
                   ELSE Res(Cast(<<ts[1]>>, a), Tail(ts))

RECURSIVE Bind(_, _, _)
Bind(sig, ts, acc) ==
  IF sig = <<>> THEN [ok |-> TRUE, b |-> acc, r |-> ts]
  ELSE LET x == TLCEval(ReadArg(ts, sig[1])) IN
       IF ~x.ok THEN [ok |-> FALSE, b |-> acc, r |-> ts] ELSE Bind(Tail(sig), x.r, Append(acc, x.v))

-----------------------------------------------------------------------------
(* Comparison with what the implementation reports.                           *)
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE Agree(_, _)
Agree(v, o) ==
  IF v.k # o.k THEN FALSE
  ELSE CASE v.k \in {"nil", "true"} -> TRUE
         [] v.k \in {"text", "toks"} -> v.s = o.s
         [] v.k = "int" -> v.v = o.v
         [] v.k = "float" -> Near(v.v, o.v, 1)
         [] v.k = "dimen" -> v.o = o.o /\ Near(v.v, o.v, v.tol)
         [] v.k = "glue" -> Near(v.w, o.w, v.wt) /\ Near(v.s, o.s, v.st) /\ Near(v.h, o.h, v.ht)
                            /\ (v.s = 0 \/ v.so = o.so) /\ (v.h = 0 \/ v.ho = o.ho)
         [] v.k = "list" -> Len(v.s) = Len(o.s) /\ \A i \in 1..Len(v.s) : Agree(v.s[i], o.s[i])
         [] v.k = "dict" -> Len(v.s) = Len(o.s) /\ \A i \in 1..Len(v.s) :
                               \E j \in 1..Len(o.s) : o.s[j].key = v.s[i].key /\ Agree(v.s[i].val, o.s[j].val)
         [] OTHER -> FALSE
Rest(ts) == Trim(Text(XAll(ts)))
Why(e) ==
  LET b == TLCEval(Bind(e.sig, e.toks, <<>>)) IN
  IF ~b.ok THEN "skip"
  ELSE IF Len(e.obs.b) # Len(b.b) THEN "number of values"
  ELSE IF \E i \in 1..Len(b.b) : ~Agree(b.b[i], e.obs.b[i])
       THEN "argument " \o ToString(CHOOSE i \in 1..Len(b.b) : ~Agree(b.b[i], e.obs.b[i])) \o " is bound to something else: "
            \o ToString(LET i == CHOOSE i \in 1..Len(b.b) : ~Agree(b.b[i], e.obs.b[i]) IN <<b.b[i], e.obs.b[i]>>)
  ELSE IF Rest(b.r) # e.obs.r THEN "what follows: " \o ToString(<<Rest(b.r), e.obs.r>>)
  ELSE IF e.obs.lvl # 0 THEN "register scanning is left unbalanced"
  ELSE "ok"
=============================================================================
