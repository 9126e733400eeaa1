----------------------------- MODULE Numbering -----------------------------
(* LaTeX counters, automatic numbers and labels.  A document is a sequence   *)
(* of events; Do(st, e) is its transition.  The state holds the counters     *)
(* (value, counter within, format of \the...), the theorem environments, the *)
(* open lists, the current labelable object (local to groups) and the labels *)
(* seen.  Objects are the positive integers the events name.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
----------------------------------------------------------------------------
(* Representations of a counter.                                             *)
Digit(units, n) == \* one decimal digit with the letters for 1, 5 and 10
  LET i == units[1] v == units[2] x == units[3]
  IN CASE n = 0 -> "" [] n = 1 -> i [] n = 2 -> i \o i [] n = 3 -> i \o i \o i [] n = 4 -> i \o v
       [] n = 5 -> v [] n = 6 -> v \o i [] n = 7 -> v \o i \o i [] n = 8 -> v \o i \o i \o i [] OTHER -> i \o x
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE s \o Times(s, n - 1)
RomanOf(n, u, m) == IF n <= 0 THEN "" ELSE Times(m, n \div 1000) \o Digit(u[1], (n \div 100) % 10) \o Digit(u[2], (n \div 10) % 10) \o Digit(u[3], n % 10)
UpperRoman(n) == RomanOf(n, <<<<"C", "D", "M">>, <<"X", "L", "C">>, <<"I", "V", "X">>>>, "M")
LowerRoman(n) == RomanOf(n, <<<<"c", "d", "m">>, <<"x", "l", "c">>, <<"i", "v", "x">>>>, "m")
Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
\* LaTeX writes nothing for 0 and stops with an error outside 0..26
Show(n, f) == CASE f = "arabic" -> ToString(n)
                [] f = "Roman" -> UpperRoman(n)
                [] f = "roman" -> LowerRoman(n)
                [] f = "Alph" -> IF n \in 1..26 THEN Uppers[n] ELSE ""
                [] OTHER -> IF n \in 1..26 THEN Lowers[n] ELSE ""
----------------------------------------------------------------------------
(* A format is a sequence of parts: text, the value of a counter, or another *)
(* \the...                                                                   *)
Lit(s) == [t |-> "lit", c |-> s, f |-> ""]
Val(c, f) == [t |-> "val", c |-> c, f |-> f]
The(c) == [t |-> "the", c |-> c, f |-> ""]
Within(a, c) == <<The(a), Lit("."), Val(c, "arabic")>>
Plain(c) == <<Val(c, "arabic")>>
Sections == <<"section", "subsection", "subsubsection", "paragraph", "subparagraph">>
Book == [names |-> {"part", "chapter", "section", "subsection", "subsubsection", "paragraph", "subparagraph", "equation", "figure", "table",
                    "enumi", "enumii", "enumiii", "enumiv"},
         within |-> [section |-> "chapter", subsection |-> "section", subsubsection |-> "subsection", paragraph |-> "subsubsection",
                     subparagraph |-> "paragraph", equation |-> "chapter", figure |-> "chapter", table |-> "chapter"]]
ClassWithin(cls, c) == IF c \in DOMAIN Book.within /\ ~(cls = "article" /\ Book.within[c] = "chapter") THEN Book.within[c] ELSE ""
ClassFormat(cls, c) ==
  LET w == ClassWithin(cls, c)
  IN CASE c = "part" -> <<Val(c, "Roman")>>
       [] w /= "" /\ c \notin {"enumi", "enumii", "enumiii", "enumiv"} -> Within(w, c)
       [] OTHER -> Plain(c)
Level == [part |-> -1, chapter |-> 0, section |-> 1, subsection |-> 2, subsubsection |-> 3, paragraph |-> 4, subparagraph |-> 5]
\* chapter 0 is not printed in front of these (book and report)
Trimmed(cls) == IF cls = "article" THEN {} ELSE {"equation", "figure", "table"}
NoObj == 0
Start(cls, depth) ==
  [cls |-> cls, depth |-> depth,
   val |-> [c \in Book.names |-> 0], within |-> [c \in Book.names |-> ClassWithin(cls, c)], fmt |-> [c \in Book.names |-> ClassFormat(cls, c)],
   trim |-> Trimmed(cls), thm |-> <<>>, lists |-> <<>>, cur |-> NoObj, saved |-> <<>>, num |-> <<>>, lab |-> <<>>, bib |-> 0, cites |-> <<>>]
Fn(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Text(_, _, _)
Text(st, c, parts) ==
  IF parts = <<>> THEN ""
  ELSE LET p == parts[1]
       IN (CASE p.t = "lit" -> p.c [] p.t = "val" -> Show(st.val[p.c], p.f)
             [] OTHER -> LET q == st.fmt[p.c] IN Text(st, p.c, IF p.c \in st.trim /\ st.val.chapter = 0 THEN SubSeq(q, 3, Len(q)) ELSE q))
          \o Text(st, c, Tail(parts))
Printed(st, c) == Text(st, c, <<The(c)>>)
----------------------------------------------------------------------------
(* Stepping resets what is declared within, transitively.                    *)
RECURSIVE Ancestors(_, _)
Ancestors(st, c) == LET w == st.within[c] IN IF w = "" \/ w \notin DOMAIN st.within THEN {} ELSE {w} \cup Ancestors(st, w)
Stepped(st, c) == [st EXCEPT !.val = [x \in DOMAIN @ |-> IF x = c THEN @[x] + 1 ELSE IF c \in Ancestors(st, x) THEN 0 ELSE @[x]]]
NoNumber == ""
\* object o becomes the current one, with the number of counter c
Number(st, o, c) == LET s == Stepped(st, c) IN [s EXCEPT !.cur = o, !.num = Fn(@, o, Printed(s, c))]
Unnumbered(st, o) == [st EXCEPT !.num = Fn(@, o, NoNumber)]
Push(st) == [st EXCEPT !.saved = Append(@, st.cur)]
EndGroup(st) == [st EXCEPT !.cur = st.saved[Len(st.saved)], !.saved = SubSeq(@, 1, Len(@) - 1)]
NewCounter(st, c, w, parts) ==
  [st EXCEPT !.val = Fn(@, c, 0), !.within = Fn(@, c, w), !.fmt = Fn(@, c, parts), !.trim = @ \ {c}]
EnumCounter == <<"enumi", "enumii", "enumiii", "enumiv">>
Enums(st) == Cardinality({i \in DOMAIN st.lists : st.lists[i] = "enumerate"})
Do(st, e) ==
  CASE e.k = "open" -> Push(st)
    [] e.k = "close" -> EndGroup(st)
    [] e.k = "sec" -> IF e.star \/ st.depth < Level[e.c] THEN [Unnumbered(st, e.o) EXCEPT !.cur = e.o] ELSE Number(st, e.o, e.c)
    [] e.k = "caption" -> IF e.star THEN Unnumbered(st, e.o) ELSE Number(st, e.o, e.c)
    [] e.k = "eqn" -> Number(Push(st), e.o, "equation")
    [] e.k = "row" -> Number(st, e.o, "equation")          \* a further row of the same environment
    [] e.k = "starred" -> Unnumbered(Push(st), e.o)        \* equation*, eqnarray*
    [] e.k = "nonumber" -> IF st.cur = e.o /\ st.num[e.o] /= NoNumber
                           THEN [st EXCEPT !.val.equation = @ - 1, !.num[e.o] = NoNumber] ELSE st
    [] e.k = "thm" -> LET c == st.thm[e.n] IN IF c = "" THEN Unnumbered(Push(st), e.o) ELSE Number(Push(st), e.o, c)
    [] e.k = "list" -> LET s == [Push(st) EXCEPT !.lists = Append(@, e.n)]
                       IN IF e.n = "enumerate" THEN [s EXCEPT !.val = Fn(@, EnumCounter[Enums(s)], 0)] ELSE s
    [] e.k = "endlist" -> [EndGroup(st) EXCEPT !.lists = SubSeq(@, 1, Len(@) - 1)]
    [] e.k = "item" -> IF st.lists[Len(st.lists)] = "enumerate" /\ ~e.opt THEN Number(st, e.o, EnumCounter[Enums(st)]) ELSE Unnumbered(st, e.o)
    [] e.k = "newtheorem" ->
         (IF e.star THEN [st EXCEPT !.thm = Fn(@, e.n, "")]
          ELSE IF e.shared /= "" THEN [st EXCEPT !.thm = Fn(@, e.n, e.shared)]
          ELSE [NewCounter(st, e.n, e.within, IF e.within = "" THEN Plain(e.n) ELSE Within(e.within, e.n)) EXCEPT !.thm = Fn(@, e.n, e.n)])
    [] e.k = "newcounter" -> NewCounter(st, e.n, e.within, Plain(e.n))
    [] e.k = "numberwithin" -> [st EXCEPT !.within[e.n] = e.within, !.fmt[e.n] = Within(e.within, e.n), !.trim = @ \ {e.n}]
    [] e.k = "renewthe" -> [st EXCEPT !.fmt[e.n] = e.parts, !.trim = @ \ {e.n}]
    [] e.k = "set" -> [st EXCEPT !.val[e.n] = e.v]
    [] e.k = "add" -> [st EXCEPT !.val[e.n] = @ + e.v]
    [] e.k = "step" -> Stepped(st, e.n)
    [] e.k = "appendix" -> (IF st.cls = "article" THEN [st EXCEPT !.val.section = 0, !.val.subsection = 0, !.fmt.section = <<Val("section", "Alph")>>]
                            ELSE [st EXCEPT !.val.chapter = 0, !.val.section = 0, !.fmt.chapter = <<Val("chapter", "Alph")>>])
    [] e.k = "label" -> IF st.cur = NoObj \/ e.l \in DOMAIN st.lab THEN st ELSE [st EXCEPT !.lab = Fn(@, e.l, st.cur)]
    [] e.k = "bibitem" -> LET n == st.bib + (IF e.opt THEN 0 ELSE 1) IN [st EXCEPT !.bib = n, !.cites = Fn(@, e.l, [o |-> e.o, num |-> IF e.opt THEN e.text ELSE ToString(n)])]
    [] OTHER -> st
RECURSIVE Run(_, _)
Run(st, es) == IF es = <<>> THEN st ELSE Run(Do(st, es[1]), Tail(es))
----------------------------------------------------------------------------
(* References: what a label names in the whole document, wherever it is.     *)
Resolve(st, l) == IF l \in DOMAIN st.lab THEN st.lab[l] ELSE NoObj
RefNumber(st, l) == LET o == Resolve(st, l) IN IF o = NoObj \/ o \notin DOMAIN st.num THEN NoNumber ELSE st.num[o]
=============================================================================
