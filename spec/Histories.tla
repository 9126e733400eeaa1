------------------------------ MODULE Histories ------------------------------
(* One interpreter processes one document after another.  What a document     *)
(* shows is decided by what it does itself (Meaning).  The machine below is   *)
(* the implementation: a process with the classes all documents share, and a  *)
(* document that gets classes of its own when it first changes one, switches  *)
(* that are pushed and popped, and trackers that belong to the document.      *)
(* A document is a sequence of actions                                        *)
(*   set r v / ask r v     assign a register / is it v?                       *)
(*   def m / has m         define a command / is it defined?                  *)
(*   pkg p / cls c         load a package (it defines commands) / the class   *)
(*   renew / form          sections get Roman numbers / write such a number   *)
(*   cnt n / step / show   set, step and print a counter                      *)
(*   label l / put l       name the counter's number / print it by the name   *)
(*   cat / bang            make ! start a comment / words around a !          *)
(*   open x                an environment, formula or group that stays open   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Registers == {"tolerance", "parindent", "parskip", "hbadness", "textwidth", "maxdepth"}
Fn(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
CommandsOf == [article |-> {}, book |-> {}, report |-> {}, amsmath |-> {"eqref"}, hyperref |-> {"href", "autoref"},
               ifthen |-> {"ifthenelse"}, amsthm |-> {"newtheoremstyle"}, makeidx |-> {}, graphicx |-> {"includegraphics"}]
Known == UNION {CommandsOf[x] : x \in DOMAIN CommandsOf}
YN(b) == IF b THEN "Y" ELSE "N"
(* ------------------------------------------------------- what a document means *)
New == [cls |-> "article", roman |-> FALSE, val |-> <<>>, def |-> {}, cnt |-> 0, lab |-> <<>>, late |-> <<>>, bang |-> FALSE, out |-> <<>>]
Say(d, s) == [d EXCEPT !.out = Append(@, s)]
\* the number of a section is written in the style of the class, or in the document's own
Romans == <<"I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X", "XI", "XII", "XIII", "XIV", "XV", "XVI", "XVII", "XVIII", "XIX", "XX">>
Number(d) == IF d.roman THEN (IF d.cnt = 0 THEN "none" ELSE Romans[d.cnt]) ELSE (IF d.cls = "article" THEN "" ELSE "0.") \o ToString(d.cnt)
Act(d, a) ==
  CASE a[1] = "set" -> [d EXCEPT !.val = Fn(@, a[2], a[3])]
    [] a[1] = "ask" -> Say(d, YN(a[2] \in DOMAIN d.val /\ d.val[a[2]] = a[3]))
    [] a[1] = "def" -> [d EXCEPT !.def = @ \cup {a[2]}]
    [] a[1] = "pkg" -> [d EXCEPT !.def = @ \cup CommandsOf[a[2]]]
    [] a[1] = "cls" -> [d EXCEPT !.cls = a[2]]
    [] a[1] = "renew" -> [d EXCEPT !.roman = TRUE]
    [] a[1] = "form" -> Say(d, Number(d))
    [] a[1] = "has" -> Say(d, YN(a[2] \in d.def))
    [] a[1] = "cnt" -> [d EXCEPT !.cnt = a[2]]
    [] a[1] = "step" -> [d EXCEPT !.cnt = @ + 1]
    [] a[1] = "show" -> Say(d, ToString(d.cnt))
    [] a[1] = "label" -> IF a[2] \in DOMAIN d.lab THEN [d EXCEPT !.cnt = @ + 1] ELSE LET e == [d EXCEPT !.cnt = @ + 1] IN [e EXCEPT !.lab = Fn(@, a[2], Number(e))]
    [] a[1] = "put" -> [Say(d, "?") EXCEPT !.late = Append(@, <<Len(d.out) + 1, a[2]>>)]      \* known at the end of the document
    [] a[1] = "cat" -> [d EXCEPT !.bang = TRUE]
    [] a[1] = "bang" -> Say(d, IF d.bang THEN "ab" ELSE "a!b")
    [] OTHER -> d
RECURSIVE Acts(_, _)
Acts(d, as) == IF as = <<>> THEN d ELSE Acts(Act(d, as[1]), Tail(as))
Resolve(d) == [i \in DOMAIN d.out |->
                 LET l == {j \in DOMAIN d.late : d.late[j][1] = i} IN
                 IF l = {} THEN d.out[i] ELSE LET x == d.late[CHOOSE j \in l : TRUE][2] IN IF x \in DOMAIN d.lab THEN d.lab[x] ELSE "none"]
Meaning(as) == Resolve(Acts(New, as))
(* ------------------------------------------------------------ the implementation *)
\* shared: the classes, what they carry, the switches; never changed by a document
Boot == [reg |-> [r \in Registers |-> "initial"], math |-> 0, lists |-> 0]
\* a document: macros maps a register to a class (shared or own), the class carries the value
Open(p) == [macro |-> [r \in Registers |-> "shared"], own |-> [r \in Registers |-> ""], d |-> New, math |-> 0, lists |-> 0, shared |-> p]
Set(x, r, v) == [x EXCEPT !.macro[r] = "own", !.own[r] = v]
Value(x, r) == IF x.macro[r] = "own" THEN x.own[r] ELSE x.shared.reg[r]
Do(x, a) ==
  CASE a[1] = "set" -> Set(x, a[2], a[3])
    [] a[1] = "ask" -> [x EXCEPT !.d = Say(@, YN(Value(x, a[2]) = a[3]))]
    [] a[1] = "open" -> IF a[2] = "math" THEN [x EXCEPT !.math = @ + 1] ELSE IF a[2] = "list" THEN [x EXCEPT !.lists = @ + 1] ELSE x
    [] OTHER -> [x EXCEPT !.d = Act(@, a)]
RECURSIVE DoAll(_, _)
DoAll(x, as) == IF as = <<>> THEN x ELSE DoAll(Do(x, as[1]), Tail(as))
\* after a document: the process, what it showed
Process(p, as) == LET x == DoAll(Open(p), as) IN [p |-> x.shared, out |-> Resolve(x.d)]
RECURSIVE History(_, _)
History(p, ds) == IF ds = <<>> THEN <<>> ELSE LET r == Process(p, ds[1]) IN <<r>> \o History(r.p, Tail(ds))
=============================================================================
