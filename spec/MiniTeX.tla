------------------------------ MODULE MiniTeX ------------------------------
(* TeX's expansion rules as a machine over token lists.                      *)
(*                                                                           *)
(* Tokens are strings: "\\foo" a control sequence, "x" a character token,    *)
(* "LEX@"/"LEX!" a piece of source text that is tokenized only when it is    *)
(* read, under the category codes then in force.                             *)
(* State: [toks: unread tokens, F: stack of frames (local meanings and       *)
(* category codes), out: text produced, ctr: counters, sw: switches,         *)
(* cond: open conditionals, unk: control sequences made by \csname,          *)
(* err: left the language (normal form); such programs are not judged].      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Units

None == [x \in {} |-> 0]
Frame(kd) == [kind |-> kd, m |-> None, c |-> None]
Undef == [k |-> "undef"]
Prim(n) == [k |-> "prim", n |-> n]
Char(c) == [k |-> "char", c |-> c]
IfPrims == {"\\iftrue", "\\iffalse", "\\ifnum", "\\ifdim", "\\ifodd", "\\ifcase", "\\ifx", "\\ifdefined"}
Expand1 == {"\\csname", "\\expandafter", "\\else", "\\or", "\\fi", "\\arabic"} \cup IfPrims
Unexp == {"\\def", "\\gdef", "\\newcommand", "\\renewcommand", "\\let", "\\relax", "\\begingroup",
          "\\endgroup", "\\begin", "\\end", "\\newif", "\\newcounter", "\\setcounter", "\\addtocounter",
          "\\stepcounter", "\\value", "\\catcode", "\\makeatletter", "\\makeatother", "\\textbf",
          "\\emph", "\\mbox", "\\newenvironment", "\\renewenvironment", "\\vfcat", "\\\\", "\\endcsname",
          "\\VF bg", "\\VF eg", "\\VF ee"}
Prims == Expand1 \cup Unexp
Envs == {"center", "quote", "flushleft", "tabular"}
Lex == {"LEX@", "LEX!"}
IsCs(t) == t \notin Lex /\ Len(t) > 1
Digit == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
   CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
     [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] OTHER -> 9]
IsDigit(t) == t \in DOMAIN Digit
DigitChar(n) == CHOOSE x \in DOMAIN Digit : Digit[x] = n
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<"-">> \o Digits(-n)
             ELSE IF n < 10 THEN <<DigitChar(n)>> ELSE Append(Digits(n \div 10), DigitChar(n % 10))
RECURSIVE Concat(_)
Concat(ts) == IF ts = <<>> THEN "" ELSE Head(ts) \o Concat(Tail(ts))

(* ------------------------------------------------------------ meanings --- *)
RECURSIVE LkF(_, _, _)
LkF(F, i, t) == IF i = 0 THEN (IF t \in Prims THEN Prim(t) ELSE Undef)
                ELSE IF t \in DOMAIN F[i].m THEN F[i].m[t] ELSE LkF(F, i - 1, t)
Lk(F, t) == LkF(F, Len(F), t)          \* the innermost live meaning
RECURSIVE CatF(_, _, _)
CatF(F, i, c) == IF i = 0 THEN 12
                 ELSE IF c \in DOMAIN F[i].c THEN F[i].c[c] ELSE CatF(F, i - 1, c)
CatOf(F, c) == CatF(F, Len(F), c)
SetLocal(F, t, m) == [F EXCEPT ![Len(F)].m = (t :> m) @@ @]
SetGlobal(F, t, m) == [i \in DOMAIN F |->
   IF i = 1 THEN [F[i] EXCEPT !.m = (t :> m) @@ @]
   ELSE [F[i] EXCEPT !.m = [x \in DOMAIN @ \ {t} |-> @[x]]]]
SetCatL(F, c, n) == [F EXCEPT ![Len(F)].c = (c :> n) @@ @]
Push(F, kd) == Append(F, Frame(kd))
Pop(F) == SubSeq(F, 1, Len(F) - 1)

(* ---------------------------------------------- late tokenized source ---- *)
\* LEX@ is the text "\q@z\relax ", LEX! is "!"
Frz1(F, t) == CASE t = "LEX@" -> IF CatOf(F, "@") = 11 THEN <<"\\q@z", "\\relax">> ELSE <<"\\q", "@", "z", "\\relax">>
                [] t = "LEX!" -> IF CatOf(F, "!") = 13 THEN <<"\\active::!">> ELSE <<"!">>
                [] OTHER -> <<t>>
RECURSIVE Frz(_, _)
Frz(F, ts) == IF ts = <<>> THEN <<>> ELSE Frz1(F, Head(ts)) \o Frz(F, Tail(ts))
FrzHead(S) == IF S.toks # <<>> /\ Head(S.toks) \in Lex
              THEN [S EXCEPT !.toks = Frz1(S.F, Head(@)) \o Tail(@)] ELSE S

(* ------------------------------------------------------------ arguments -- *)
RECURSIVE SkipSp(_)
SkipSp(ts) == IF ts # <<>> /\ Head(ts) = " " THEN SkipSp(Tail(ts)) ELSE ts
Fail == [ok |-> FALSE, a |-> <<>>, r |-> <<>>]
Got(a, r) == [ok |-> TRUE, a |-> a, r |-> r]
\* index of the brace that closes the group opened before position i
RECURSIVE Close(_, _, _)
Close(ts, i, lv) == IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "{" THEN Close(ts, i + 1, lv + 1)
   ELSE IF ts[i] = "}" THEN (IF lv = 1 THEN i ELSE Close(ts, i + 1, lv - 1))
   ELSE Close(ts, i + 1, lv)
Group(ts) == \* ts begins with "{"
   LET j == Close(ts, 2, 1) IN
   IF j = 0 THEN Fail ELSE Got(SubSeq(ts, 2, j - 1), SubSeq(ts, j + 1, Len(ts)))
Undelimited(ts0) == LET ts == SkipSp(ts0) IN
   IF ts = <<>> \/ Head(ts) = "}" THEN Fail
   ELSE IF Head(ts) = "{" THEN Group(ts) ELSE Got(<<Head(ts)>>, Tail(ts))
Braced(ts0) == LET ts == SkipSp(ts0) IN
   IF ts = <<>> \/ Head(ts) # "{" THEN Fail ELSE Group(ts)
StripGroup(a) == IF Len(a) > 1 /\ a[1] = "{" /\ Close(a, 2, 1) = Len(a) THEN SubSeq(a, 2, Len(a) - 1) ELSE a
\* everything up to the delimiter outside groups; brace: a "{" must follow it and stays
RECURSIVE DelimAt(_, _, _, _, _)
DelimAt(ts, d, brace, i, lv) ==
   IF i + Len(d) - 1 > Len(ts) THEN 0
   ELSE IF lv = 0 /\ SubSeq(ts, i, i + Len(d) - 1) = d
           /\ (brace => (i + Len(d) <= Len(ts) /\ ts[i + Len(d)] = "{")) THEN i
   ELSE IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "{" THEN DelimAt(ts, d, brace, i + 1, lv + 1)
   ELSE IF ts[i] = "}" THEN (IF lv = 0 THEN 0 ELSE DelimAt(ts, d, brace, i + 1, lv - 1))
   ELSE DelimAt(ts, d, brace, i + 1, lv)
Delimited(ts, d, brace) == LET i == DelimAt(ts, d, brace, 1, 0) IN
   IF i = 0 THEN Fail ELSE Got(StripGroup(SubSeq(ts, 1, i - 1)), SubSeq(ts, i + Len(d), Len(ts)))
\* optional argument: [] in LaTeX, with nested braces
RECURSIVE OptEnd(_, _, _)
OptEnd(ts, i, lv) == IF i > Len(ts) THEN 0
   ELSE IF ts[i] = "{" THEN OptEnd(ts, i + 1, lv + 1)
   ELSE IF ts[i] = "}" THEN (IF lv = 0 THEN 0 ELSE OptEnd(ts, i + 1, lv - 1))
   ELSE IF ts[i] = "]" /\ lv = 0 THEN i
   ELSE IF ts[i] = "[" /\ lv = 0 THEN 0          \* nested brackets: not in the language
   ELSE OptEnd(ts, i + 1, lv)
HasOpt(ts0) == LET ts == SkipSp(ts0) IN ts # <<>> /\ Head(ts) = "["
Optional(ts0) == LET ts == SkipSp(ts0)
                     j == OptEnd(ts, 2, 0) IN
   IF j = 0 THEN Fail ELSE Got(SubSeq(ts, 2, j - 1), SubSeq(ts, j + 1, Len(ts)))

(* ---------------------------------------------------------- definitions -- *)
\* parameter text -> [pre, del, brace, ok]
RECURSIVE ParseParams(_, _, _, _)
ParseParams(ts, pre, del, ok) ==
   IF ts = <<>> THEN [pre |-> pre, del |-> del, brace |-> FALSE, ok |-> ok]
   ELSE IF ts = <<"#">> THEN [pre |-> pre, del |-> del, brace |-> TRUE, ok |-> ok]
   ELSE IF Head(ts) = "#" THEN
      ParseParams(SubSeq(ts, 3, Len(ts)), pre, Append(del, <<>>),
                  ok /\ IsDigit(ts[2]) /\ Digit[ts[2]] = Len(del) + 1)
   ELSE IF del = <<>> THEN ParseParams(Tail(ts), Append(pre, Head(ts)), del, ok)
   ELSE ParseParams(Tail(ts), pre, [del EXCEPT ![Len(del)] = Append(@, Head(ts))], ok)
\* replacement text: "##" -> "#", "#n" -> "#n" (one token); FALSE if ill-formed
RECURSIVE Body(_, _, _)
Body(ts, n, acc) ==
   IF ts = <<>> THEN [ok |-> TRUE, b |-> acc]
   ELSE IF Head(ts) # "#" THEN Body(Tail(ts), n, Append(acc, Head(ts)))
   ELSE IF Len(ts) = 1 THEN [ok |-> FALSE, b |-> acc]
   ELSE IF ts[2] = "#" THEN Body(SubSeq(ts, 3, Len(ts)), n, Append(acc, "#"))
   ELSE IF IsDigit(ts[2]) /\ Digit[ts[2]] \in 1..n
        THEN Body(SubSeq(ts, 3, Len(ts)), n, Append(acc, "#" \o ts[2]))
   ELSE [ok |-> FALSE, b |-> acc]
IsParam(t) == Len(t) = 2 /\ SubSeq(t, 1, 1) = "#"
RECURSIVE Subst(_, _)
Subst(b, args) == IF b = <<>> THEN <<>>
   ELSE (IF IsParam(Head(b)) THEN args[Digit[SubSeq(Head(b), 2, 2)]] ELSE <<Head(b)>>) \o Subst(Tail(b), args)
Mac(pre, del, brace, opt, body) ==
   [k |-> "mac", pre |-> pre, del |-> del, brace |-> brace, opt |-> opt, body |-> body]
\* collect the arguments of macro m; result [ok, args, r]
RECURSIVE Args(_, _, _)
Args(m, ts, args) ==
   LET n == Len(args) + 1 IN
   IF n > Len(m.del) THEN [ok |-> TRUE, args |-> args, r |-> ts]
   ELSE LET g == IF n = 1 /\ m.opt # <<>>
                 THEN (IF HasOpt(ts) THEN Optional(ts) ELSE Got(m.opt[1], ts))
                 ELSE IF m.del[n] # <<>> \/ (m.brace /\ n = Len(m.del))
                 THEN Delimited(ts, m.del[n], m.brace /\ n = Len(m.del))
                 ELSE Undelimited(ts)
        IN IF g.ok THEN Args(m, g.r, Append(args, g.a)) ELSE [ok |-> FALSE, args |-> args, r |-> ts]
Bad(S) == [S EXCEPT !.err = TRUE, !.toks = <<>>]
\* tokens that may not be swallowed by an argument (outside the language)
Swallow == {"\\else", "\\or", "\\fi", "$", "&"}
Call(S, m, r0) ==
   LET r == r0
       np == Len(m.pre) IN
   IF Len(r) < np \/ SubSeq(r, 1, np) # m.pre THEN Bad(S)
   ELSE IF m.del = <<>> THEN (IF m.brace /\ (Len(r) <= np \/ r[np + 1] # "{") THEN Bad(S)
                              ELSE [S EXCEPT !.toks = m.body \o SubSeq(r, np + 1, Len(r))])
   ELSE LET g == Args(m, SubSeq(r, np + 1, Len(r)), <<>>) IN
        IF ~g.ok \/ \E i \in DOMAIN g.args : Len(g.args[i]) = 1 /\ g.args[i][1] \in Swallow THEN Bad(S)
        ELSE [S EXCEPT !.toks = Subst(m.body, [i \in DOMAIN g.args |-> Frz(S.F, g.args[i])]) \o g.r]

(* ------------------------------------------------------------ expansion -- *)
Expandable(S, t) == IsCs(t) /\ LET m == Lk(S.F, t) IN
   \/ m.k \in {"mac", "switch"} \/ (m.k = "prim" /\ m.n \in Expand1)
IsPrim(S, t, n) == IsCs(t) /\ Lk(S.F, t) = Prim(n)
IsIf(S, t) == IsCs(t) /\ LET m == Lk(S.F, t) IN m.k = "switch" \/ (m.k = "prim" /\ m.n \in IfPrims)
\* position of the next \or, \else or \fi of this conditional
RECURSIVE FindEnd(_, _, _, _)
FindEnd(S, ts, i, lv) ==
   IF i > Len(ts) THEN 0
   ELSE IF IsIf(S, ts[i]) THEN FindEnd(S, ts, i + 1, lv + 1)
   ELSE IF IsPrim(S, ts[i], "\\fi") /\ lv > 0 THEN FindEnd(S, ts, i + 1, lv - 1)
   ELSE IF lv = 0 /\ (IsPrim(S, ts[i], "\\fi") \/ IsPrim(S, ts[i], "\\else") \/ IsPrim(S, ts[i], "\\or")) THEN i
   ELSE FindEnd(S, ts, i + 1, lv)
After(ts, i) == SubSeq(ts, i + 1, Len(ts))
TopCond(S) == IF S.cond = <<>> THEN "none" ELSE S.cond[Len(S.cond)]
RECURSIVE SkipToFi(_, _)
SkipToFi(S, ts) == LET i == FindEnd(S, ts, 1, 0) IN   \* drops the rest of the conditional
   IF i = 0 THEN Bad(S)
   ELSE IF IsPrim(S, ts[i], "\\fi") THEN [S EXCEPT !.toks = After(ts, i), !.cond = SubSeq(@, 1, Len(@) - 1)]
   ELSE SkipToFi(S, After(ts, i))
Branch(S, ts, b) ==
   IF b THEN [S EXCEPT !.toks = ts, !.cond = Append(@, "if")]
   ELSE LET i == FindEnd(S, ts, 1, 0) IN
        IF i = 0 THEN Bad(S)
        ELSE IF IsPrim(S, ts[i], "\\fi") THEN [S EXCEPT !.toks = After(ts, i)]
        ELSE IF IsPrim(S, ts[i], "\\else") THEN [S EXCEPT !.toks = After(ts, i), !.cond = Append(@, "else")]
        ELSE Bad(S)
RECURSIVE CaseBranch(_, _, _)
CaseBranch(S, ts, n) ==
   IF n = 0 THEN [S EXCEPT !.toks = ts, !.cond = Append(@, "case")]
   ELSE LET i == FindEnd(S, ts, 1, 0) IN
        IF i = 0 THEN Bad(S)
        ELSE IF IsPrim(S, ts[i], "\\fi") THEN [S EXCEPT !.toks = After(ts, i)]
        ELSE IF IsPrim(S, ts[i], "\\else") THEN [S EXCEPT !.toks = After(ts, i), !.cond = Append(@, "else")]
        ELSE CaseBranch(S, After(ts, i), n - 1)
PlainBody(b) == \A i \in DOMAIN b : ~IsCs(b[i]) /\ b[i] \notin {" ", "{", "}", "#", "$", "&"} \cup Lex
NoNum == [ok |-> FALSE, v |-> 0]
CtrName(g) == Concat(g.a)

\* what is expanded while a number is read: TeX inserts \relax before \else, \or, \fi
Scannable(S, t) == Expandable(S, t) /\ ~\E n \in {"\\else", "\\or", "\\fi"} : IsPrim(S, t, n)
RECURSIVE ExpandHead(_), ReadInt(_, _), ReadDigits(_, _, _), CsLoop(_, _), ReadFrac(_, _), ReadDimV(_, _)
\* the machine with an integer read off the front of its tokens: [S, ok, v]
ReadInt(S, sg) ==
   IF S.err \/ S.toks = <<>> THEN [S |-> S, ok |-> FALSE, v |-> 0]
   ELSE LET t == Head(S.toks) r == Tail(S.toks) IN
   IF t \in {" ", "+"} THEN ReadInt([S EXCEPT !.toks = r], sg)
   ELSE IF t = "-" THEN ReadInt([S EXCEPT !.toks = r], -sg)
   ELSE IF IsDigit(t) THEN ReadDigits([S EXCEPT !.toks = r], sg, Digit[t])
   ELSE IF IsPrim(S, t, "\\value") THEN
        LET g == Braced(r) IN
        IF g.ok /\ CtrName(g) \in DOMAIN S.ctr
        THEN [S |-> [S EXCEPT !.toks = g.r], ok |-> TRUE, v |-> sg * S.ctr[CtrName(g)]]
        ELSE [S |-> S, ok |-> FALSE, v |-> 0]
   ELSE IF Scannable(S, t) THEN ReadInt(ExpandHead(S), sg)
   ELSE [S |-> S, ok |-> FALSE, v |-> 0]
ReadDigits(S, sg, n) ==
   IF S.err \/ n > 100000000 THEN [S |-> S, ok |-> FALSE, v |-> 0]
   ELSE IF S.toks = <<>> THEN [S |-> S, ok |-> TRUE, v |-> sg * n]
   ELSE LET t == Head(S.toks) r == Tail(S.toks) IN
   IF IsDigit(t) THEN ReadDigits([S EXCEPT !.toks = r], sg, 10 * n + Digit[t])
   ELSE IF t = " " THEN [S |-> [S EXCEPT !.toks = r], ok |-> TRUE, v |-> sg * n]
   ELSE IF Scannable(S, t) THEN ReadDigits(ExpandHead(S), sg, n)
   ELSE [S |-> S, ok |-> TRUE, v |-> sg * n]
\* digits of a fraction: [S, ds]
ReadFrac(S, ds) ==
   IF S.err \/ S.toks = <<>> THEN [S |-> S, ds |-> ds]
   ELSE IF IsDigit(Head(S.toks)) THEN ReadFrac([S EXCEPT !.toks = Tail(@)], Append(ds, Digit[Head(S.toks)]))
   ELSE IF Scannable(S, Head(S.toks)) THEN ReadFrac(ExpandHead(S), ds)
   ELSE [S |-> S, ds |-> ds]
RECURSIVE DigVal(_, _)
DigVal(ds, n) == IF ds = <<>> THEN n ELSE DigVal(Tail(ds), 10 * n + Head(ds))
ReadDimV(S, sg) ==
   IF S.err \/ S.toks = <<>> THEN [S |-> S, ok |-> FALSE, v |-> 0]
   ELSE LET t == Head(S.toks) r == Tail(S.toks) IN
   IF t \in {" ", "+"} THEN ReadDimV([S EXCEPT !.toks = r], sg)
   ELSE IF t = "-" THEN ReadDimV([S EXCEPT !.toks = r], -sg)
   ELSE IF IsDigit(t) \/ t = "." THEN
        LET ip == ReadFrac(S, <<>>)
            fp == IF ip.S.toks # <<>> /\ Head(ip.S.toks) = "."
                  THEN ReadFrac([ip.S EXCEPT !.toks = Tail(@)], <<>>) ELSE [S |-> ip.S, ds |-> <<>>]
            us == SkipSp(fp.S.toks)
            u == IF Len(us) < 2 THEN "?" ELSE us[1] \o us[2]
            rest == LET x == SubSeq(us, 3, Len(us)) IN IF x # <<>> /\ Head(x) = " " THEN Tail(x) ELSE x
        IN IF fp.S.err \/ u \notin DOMAIN UnitRatio \cup {"sp"} \/ Len(ip.ds) > 4 \/ (u = "sp" /\ fp.ds # <<>>) \/ Len(fp.ds) > 5
           THEN [S |-> S, ok |-> FALSE, v |-> 0]
           ELSE [S |-> [fp.S EXCEPT !.toks = rest], ok |-> TRUE,
                 v |-> sg * Scaled(DigVal(ip.ds, 0), RoundDec(fp.ds, 0), u)]
   ELSE IF Scannable(S, t) THEN ReadDimV(ExpandHead(S), sg)
   ELSE [S |-> S, ok |-> FALSE, v |-> 0]
Compare(a, rel, b) == CASE rel = "<" -> a < b [] rel = ">" -> a > b [] OTHER -> a = b
\* \csname: the tokens up to \endcsname expand to characters
CsLoop(S, nm) ==
   IF S.err \/ S.toks = <<>> THEN Bad(S)
   ELSE LET t == Head(S.toks) r == Tail(S.toks) IN
   IF IsPrim(S, t, "\\endcsname") THEN
      LET c == "\\" \o nm IN
      IF nm = "" THEN Bad(S)
      ELSE IF Lk(S.F, c).k = "undef"
      THEN [S EXCEPT !.toks = <<c>> \o r, !.F = SetLocal(S.F, c, [k |-> "csrelax"]), !.unk = @ \cup {c}]
      ELSE [S EXCEPT !.toks = <<c>> \o r]
   ELSE IF Expandable(S, t) THEN CsLoop(ExpandHead(S), nm)
   ELSE IF IsCs(t) \/ t \in {"{", "}", "#", "$", "&", " "} \cup Lex THEN Bad(S)
   ELSE CsLoop([S EXCEPT !.toks = r], nm \o t)
\* one expansion of the (expandable) first token
ExpandHead(S0) ==
   LET t == Head(S0.toks)
       r == Tail(S0.toks)
       S == [S0 EXCEPT !.toks = r]
       m == Lk(S.F, t) IN
   CASE m.k = "mac" -> Call(S, m, r)
     [] m.k = "switch" -> Branch(S, r, S.sw[m.n])
     [] m.n = "\\csname" -> CsLoop(S, "")
     [] m.n = "\\expandafter" ->
          IF Len(r) < 2 \/ r[1] \in Lex \/ r[2] \in Lex
             \/ \E n \in {"\\else", "\\or", "\\fi"} : IsPrim(S, r[1], n) \/ IsPrim(S, r[2], n) THEN Bad(S)
          ELSE IF Expandable(S, r[2]) THEN
               LET e == ExpandHead([S EXCEPT !.toks = Tail(r)]) IN [e EXCEPT !.toks = <<r[1]>> \o @]
          ELSE IF IsCs(r[2]) /\ Lk(S.F, r[2]).k \notin {"char"} /\ Lk(S.F, r[2]) # Prim("\\relax") THEN Bad(S)
          ELSE S
     [] m.n = "\\arabic" -> (LET g == Braced(r) IN
          IF g.ok /\ CtrName(g) \in DOMAIN S.ctr THEN [S EXCEPT !.toks = Digits(S.ctr[CtrName(g)]) \o g.r] ELSE Bad(S))
     [] m.n = "\\iftrue" -> Branch(S, r, TRUE)
     [] m.n = "\\iffalse" -> Branch(S, r, FALSE)
     [] m.n = "\\ifnum" ->
          (LET a == ReadInt(S, 1)
               ts == SkipSp(a.S.toks) IN
           IF ~a.ok \/ ts = <<>> \/ Head(ts) \notin {"<", ">", "="} THEN Bad(S)
           ELSE LET b == ReadInt([a.S EXCEPT !.toks = Tail(ts)], 1) IN
                IF ~b.ok \/ Len(b.S.cond) # Len(S.cond) THEN Bad(S) ELSE Branch(b.S, b.S.toks, Compare(a.v, Head(ts), b.v)))
     [] m.n = "\\ifdim" ->
          (LET a == ReadDimV(S, 1)
               ts == SkipSp(a.S.toks) IN
           IF ~a.ok \/ ts = <<>> \/ Head(ts) \notin {"<", ">", "="} THEN Bad(S)
           ELSE LET b == ReadDimV([a.S EXCEPT !.toks = Tail(ts)], 1) IN
                IF ~b.ok \/ Len(b.S.cond) # Len(S.cond) THEN Bad(S) ELSE Branch(b.S, b.S.toks, Compare(a.v, Head(ts), b.v)))
     [] m.n = "\\ifodd" -> (LET a == ReadInt(S, 1) IN IF ~a.ok \/ Len(a.S.cond) # Len(S.cond) THEN Bad(S) ELSE Branch(a.S, a.S.toks, a.v % 2 = 1))
     [] m.n = "\\ifcase" -> (LET a == ReadInt(S, 1) IN IF ~a.ok \/ Len(a.S.cond) # Len(S.cond) THEN Bad(S) ELSE CaseBranch(a.S, a.S.toks, a.v))
     [] m.n = "\\ifx" ->
          (IF Len(r) < 2 \/ r[1] \in Lex \/ r[2] \in Lex THEN Bad(S)
           ELSE IF ~IsCs(r[1]) /\ ~IsCs(r[2]) THEN
                IF {r[1], r[2]} \cap {" ", "{", "}", "#", "$", "&"} # {} THEN Bad(S)
                ELSE Branch(S, SubSeq(r, 3, Len(r)), r[1] = r[2])
           ELSE LET x == Lk(S.F, r[1]) y == Lk(S.F, r[2]) IN
                IF IsCs(r[1]) /\ IsCs(r[2]) /\ x.k = "mac" /\ y.k = "mac" /\ x.del = <<>> /\ y.del = <<>>
                   /\ x.pre = <<>> /\ y.pre = <<>> /\ PlainBody(x.body) /\ PlainBody(y.body)
                THEN Branch(S, SubSeq(r, 3, Len(r)), x.body = y.body)
                ELSE Bad(S))
     [] m.n = "\\ifdefined" ->
          (IF r = <<>> \/ ~IsCs(Head(r)) \/ Head(r) \in S.unk THEN Bad(S)
           ELSE Branch(S, Tail(r), Lk(S.F, Head(r)).k # "undef"))
     [] m.n = "\\fi" -> IF S.cond = <<>> THEN Bad(S) ELSE [S EXCEPT !.cond = SubSeq(@, 1, Len(@) - 1)]
     [] m.n = "\\else" -> IF TopCond(S) \in {"if", "case"} THEN SkipToFi(S, r) ELSE Bad(S)
     [] m.n = "\\or" -> IF TopCond(S) = "case" THEN SkipToFi(S, r) ELSE Bad(S)
     [] OTHER -> Bad(S)

(* ------------------------------------------------------------ execution -- *)
Define(S, global, name, del, r) ==
   \* del: parsed parameters; r begins with the "{" of the body
   LET g == Group(r) IN
   IF ~g.ok \/ ~del.ok THEN Bad(S)
   ELSE LET b == Body(g.a, Len(del.del), <<>>)
            m == Mac(del.pre, del.del, del.brace, <<>>, Frz(S.F, b.b)) IN
        IF ~b.ok THEN Bad(S)
        ELSE [S EXCEPT !.toks = g.r, !.F = IF global THEN SetGlobal(@, name, m) ELSE SetLocal(@, name, m)]
BraceAt(ts) == LET s == {i \in DOMAIN ts : ts[i] = "{"} IN
   IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
\* \newcommand\name[n][default]{body}, name possibly in braces
CommandArgs(ts) ==  \* [ok, n, opt, body, r]
   LET a == IF HasOpt(ts) THEN Optional(ts) ELSE Got(<<"0">>, ts)
       b == IF a.ok /\ HasOpt(a.r) THEN Optional(a.r) ELSE Got(<<>>, a.r)
       hasb == a.ok /\ HasOpt(a.r)
       g == IF a.ok /\ b.ok THEN Undelimited(b.r) ELSE Fail
   IN IF ~g.ok \/ Len(a.a) # 1 \/ ~IsDigit(a.a[1]) THEN [ok |-> FALSE]
      ELSE LET n == Digit[a.a[1]]
               bd == Body(g.a, n, <<>>) IN
           IF ~bd.ok \/ (hasb /\ n = 0) THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, m |-> Mac(<<>>, [i \in 1..n |-> <<>>], FALSE, IF hasb THEN <<b.a>> ELSE <<>>, bd.b), r |-> g.r]
AtName(t) == IF t = "\\@" THEN "@" ELSE IF t = "\\!" THEN "!" ELSE "?"
DoBegin(S, r) ==
   LET g == Braced(r) n == Concat(g.a) IN
   IF ~g.ok THEN Bad(S)
   ELSE IF n = "tabular" THEN
        LET c == Braced(g.r) IN
        IF ~c.ok THEN Bad(S) ELSE [S EXCEPT !.toks = c.r, !.F = Push(Push(@, "env:tabular"), "cell")]
   ELSE IF n \in Envs THEN [S EXCEPT !.toks = g.r, !.F = Push(@, "env:" \o n)]
   ELSE IF Lk(S.F, "\\" \o n).k = "mac" THEN [S EXCEPT !.toks = <<"\\" \o n>> \o g.r, !.F = Push(@, "env:" \o n)]
   ELSE Bad(S)
DoEnd(S, r) ==
   LET g == Braced(r) n == Concat(g.a) top == S.F[Len(S.F)].kind IN
   IF ~g.ok THEN Bad(S)
   ELSE IF n = "tabular" THEN
        IF top = "cell" THEN [S EXCEPT !.toks = g.r, !.F = Pop(Pop(@))] ELSE Bad(S)
   ELSE IF top # "env:" \o n THEN Bad(S)
   ELSE IF n \in Envs THEN [S EXCEPT !.toks = g.r, !.F = Pop(@)]
   ELSE IF Lk(S.F, "\\end" \o n).k = "mac" THEN [S EXCEPT !.toks = <<"\\end" \o n, "\\VF ee">> \o g.r]
   ELSE Bad(S)
Boxes == {"\\textbf", "\\emph", "\\mbox"}
Exec(S0, t, n) ==      \* primitive n, spelled t
   LET rr == Tail(S0.toks)
       r == IF n \in {"\\def", "\\gdef", "\\let"} /\ rr # <<>> /\ Head(rr) \in Lex
            THEN Frz1(S0.F, Head(rr)) \o Tail(rr) ELSE rr
       S == [S0 EXCEPT !.toks = r] IN
   CASE n = "\\relax" -> S
     [] n \in {"\\def", "\\gdef"} ->
          (LET i == BraceAt(r) IN
           IF i < 2 \/ ~IsCs(r[1]) THEN Bad(S)
           ELSE Define(S, n = "\\gdef", r[1], ParseParams(SubSeq(r, 2, i - 1), <<>>, <<>>, TRUE), SubSeq(r, i, Len(r))))
     [] n \in {"\\newcommand", "\\renewcommand"} ->
          (LET g == Undelimited(r) c == IF g.ok THEN CommandArgs(g.r) ELSE [ok |-> FALSE] IN
           IF ~c.ok \/ Len(g.a) # 1 \/ ~IsCs(g.a[1]) THEN Bad(S)
           ELSE IF (Lk(S.F, g.a[1]).k \in {"undef", "csrelax"}) # (n = "\\newcommand")
                   \/ Lk(S.F, g.a[1]).k = "prim" THEN Bad(S)
           ELSE [S EXCEPT !.toks = c.r, !.F = SetLocal(@, g.a[1], [c.m EXCEPT !.body = Frz(S.F, @)])])
     [] n \in {"\\newenvironment", "\\renewenvironment"} ->
          (LET g == Braced(r) c == IF g.ok THEN CommandArgs(g.r) ELSE [ok |-> FALSE]
               e == IF c.ok THEN Undelimited(c.r) ELSE Fail IN
           IF ~e.ok THEN Bad(S)
           ELSE LET nm == Concat(g.a) IN
                IF (Lk(S.F, "\\" \o nm).k = "undef") # (n = "\\newenvironment") \/ \E i \in DOMAIN e.a : e.a[i] = "#" THEN Bad(S)
                ELSE [S EXCEPT !.toks = e.r, !.F = SetLocal(SetLocal(@, "\\" \o nm, [c.m EXCEPT !.body = Frz(S.F, @)]), "\\end" \o nm,
                                    Mac(<<>>, <<>>, FALSE, <<>>, Frz(S.F, e.a)))])
     [] n = "\\let" ->
          (IF Len(r) < 2 \/ ~IsCs(r[1]) THEN Bad(S)
           ELSE LET r1 == SkipSp(Tail(r))
                    r2 == IF r1 # <<>> /\ Head(r1) = "=" THEN Tail(r1) ELSE r1 IN
                IF r2 = <<>> \/ Head(r2) \in {" ", "{", "}", "#", "$", "&"} \cup Lex THEN Bad(S)
                ELSE LET m == IF IsCs(Head(r2)) THEN Lk(S.F, Head(r2)) ELSE Char(Head(r2)) IN
                     IF m.k \in {"undef", "csrelax"} THEN Bad(S)
                     ELSE [S EXCEPT !.toks = Tail(r2), !.F = SetLocal(@, r[1], m)])
     [] n \in {"\\begingroup", "\\VF bg"} -> [S EXCEPT !.F = Push(@, "group")]
     [] n \in {"\\endgroup", "\\VF eg"} -> IF S.F[Len(S.F)].kind = "group" THEN [S EXCEPT !.F = Pop(@)] ELSE Bad(S)
     [] n = "\\VF ee" -> IF Len(S.F) > 1 THEN [S EXCEPT !.F = Pop(@)] ELSE Bad(S)
     [] n = "\\begin" -> DoBegin(S, r)
     [] n = "\\end" -> DoEnd(S, r)
     [] n \in Boxes -> (LET g == Braced(r) IN
          IF g.ok THEN [S EXCEPT !.toks = <<"\\VF bg">> \o Frz(S.F, g.a) \o <<"\\VF eg">> \o g.r] ELSE Bad(S))
     [] n = "\\newif" ->
          (IF r = <<>> \/ ~IsCs(Head(r)) \/ Len(Head(r)) < 4 \/ Lk(S.F, Head(r)).k # "undef" THEN Bad(S)
           ELSE LET nm == SubSeq(Head(r), 4, Len(Head(r))) IN
                [S EXCEPT !.toks = Tail(r), !.sw = (nm :> FALSE) @@ @,
                   !.F = SetGlobal(SetGlobal(SetGlobal(@, Head(r), [k |-> "switch", n |-> nm]),
                            "\\" \o nm \o "true", [k |-> "set", n |-> nm, v |-> TRUE]),
                            "\\" \o nm \o "false", [k |-> "set", n |-> nm, v |-> FALSE])])
     [] n = "\\newcounter" -> (LET g == Braced(r) IN
          IF ~g.ok \/ CtrName(g) \in DOMAIN S.ctr THEN Bad(S) ELSE [S EXCEPT !.toks = g.r, !.ctr = (CtrName(g) :> 0) @@ @])
     [] n = "\\stepcounter" -> (LET g == Braced(r) IN
          IF ~g.ok \/ CtrName(g) \notin DOMAIN S.ctr THEN Bad(S) ELSE [S EXCEPT !.toks = g.r, !.ctr[CtrName(g)] = @ + 1])
     [] n \in {"\\setcounter", "\\addtocounter"} ->
          (LET g == Braced(r) v == IF g.ok THEN Braced(g.r) ELSE Fail IN
           IF ~v.ok \/ CtrName(g) \notin DOMAIN S.ctr THEN Bad(S)
           ELSE LET x == ReadInt([S EXCEPT !.toks = Append(v.a, "\\VF end")], 1) IN
                IF ~x.ok \/ x.S.err \/ x.S.toks \notin {<<"\\VF end">>, <<"\\relax", "\\VF end">>} \/ x.S.F # S.F THEN Bad(S)
                ELSE [S EXCEPT !.toks = v.r, !.ctr[CtrName(g)] = IF n = "\\setcounter" THEN x.v ELSE @ + x.v])
     [] n = "\\catcode" ->
          (IF Len(r) < 4 \/ r[1] # "`" \/ AtName(r[2]) = "?" \/ r[3] # "=" THEN Bad(S)
           ELSE LET x == ReadInt([S EXCEPT !.toks = SubSeq(r, 4, Len(r))], 1) IN
                IF ~x.ok \/ x.v \notin {11, 12, 13} \/ (AtName(r[2]) = "@" /\ x.v = 13) THEN Bad(S)
                ELSE [x.S EXCEPT !.F = SetCatL(@, AtName(r[2]), x.v)])
     [] n = "\\makeatletter" -> [S EXCEPT !.F = SetCatL(@, "@", 11)]
     [] n = "\\makeatother" -> [S EXCEPT !.F = SetCatL(@, "@", 12)]
     [] n = "\\vfcat" -> [S EXCEPT !.out = @ \o Digits(CatOf(S.F, "@")) \o Digits(CatOf(S.F, "!"))]
     [] n = "\\\\" -> IF S.F[Len(S.F)].kind = "cell" THEN [S EXCEPT !.F = Push(Pop(@), "cell")] ELSE Bad(S)
     [] OTHER -> Bad(S)
\* one step of the machine
Step(S0) ==
   LET S == FrzHead(S0)
       t == Head(S.toks)
       r == Tail(S.toks)
       top == S.F[Len(S.F)].kind IN
   IF ~IsCs(t) THEN
      CASE t = " " -> [S EXCEPT !.toks = r]
        [] t = "{" -> [S EXCEPT !.toks = r, !.F = Push(@, "{")]
        [] t = "}" -> IF top = "{" THEN [S EXCEPT !.toks = r, !.F = Pop(@)] ELSE Bad(S)
        [] t = "$" -> [S EXCEPT !.toks = r, !.F = IF top = "$" THEN Pop(@) ELSE Push(@, "$")]
        [] t = "&" -> IF top = "cell" THEN [S EXCEPT !.toks = r, !.F = Push(Pop(@), "cell")] ELSE Bad(S)
        [] t = "#" -> Bad(S)
        [] OTHER -> [S EXCEPT !.toks = r, !.out = Append(@, t)]
   ELSE LET m == Lk(S.F, t) IN
        CASE m.k = "undef" -> Bad(S)
          [] m.k = "csrelax" -> [S EXCEPT !.toks = r]
          [] m.k = "char" -> [S EXCEPT !.toks = r, !.out = Append(@, m.c)]
          [] m.k = "set" -> [S EXCEPT !.toks = r, !.sw[m.n] = m.v]
          [] Expandable(S, t) -> ExpandHead(S)
          [] OTHER -> Exec(S, t, m.n)
Start(ts) == [toks |-> ts, F |-> <<Frame("global")>>, out |-> <<>>, ctr |-> None, sw |-> None,
              cond |-> <<>>, unk |-> {}, err |-> FALSE]
Finished(S) == S.toks = <<>>
Balanced(S) == Len(S.F) = 1 /\ S.cond = <<>>
=============================================================================
