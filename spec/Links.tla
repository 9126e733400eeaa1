-------------------------------- MODULE Links --------------------------------
(* The links of a rendered document.  The document is one sequence of events: *)
(* units, words and notes as in Split.tla, numbered objects and labels as in  *)
(* Numbering.tla, and                                                         *)
(*   [k |-> "ref", n, l, cmd]   the n-th reference, to label l                *)
(*   [k |-> "anchor", o, l]     \hypertarget                                  *)
(*   [k |-> "cite", n, ls]      a citation of keys ls                         *)
(*   [k |-> "fn", ws]           a footnote with these words                   *)
(*   [k |-> "idx", p]           an index entry with path p                    *)
(* Split says which file an event is in and what the files are called,        *)
(* Numbering which object a label names and its number; here is what every    *)
(* link has to be: the file, and what is found behind its identifier.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == INSTANCE Split
N == INSTANCE Numbering

(* ------------------------------------------------------ where events happen *)
RECURSIVE Places(_, _, _, _, _)          \* the file of every event
Places(stack, n, es, i, lev) ==
  IF i > Len(es) THEN <<>>
  ELSE LET e == es[i] IN
       IF e.k # "unit" THEN <<stack[Len(stack)].file>> \o Places(stack, n, es, i + 1, lev)
       ELSE LET open == S!Close(stack, e.lev)
                own == e.lev <= lev
                f == IF own THEN n + 1 ELSE open[Len(open)].file
            IN <<f>> \o Places(Append(open, [lev |-> e.lev, file |-> f]), IF own THEN n + 1 ELSE n, es, i + 1, lev)

(* ------------------------------------------------------------------- targets *)
(* the mark an event leaves in the body of its file *)
IsMark(e) == e.k = "w" \/ (e.k = "unit" /\ e.head # <<>>)
First(e) == IF e.k = "w" THEN e.s ELSE e.head[1]
LastOf(e) == IF e.k = "w" THEN e.s ELSE e.head[Len(e.head)]
\* d: what has been computed about the document: es, at (files of events), names, own, num
After(d, i, from) ==
  LET js == {j \in from..Len(d.es) : d.at[j] = d.at[i] /\ IsMark(d.es[j])}
  IN IF js = {} THEN "" ELSE First(d.es[CHOOSE j \in js : \A m \in js : j <= m])
Before(d, i) ==
  LET js == {j \in 1..i - 1 : d.at[j] = d.at[i] /\ IsMark(d.es[j])}
  IN IF js = {} THEN "" ELSE LastOf(d.es[CHOOSE j \in js : \A m \in js : m <= j])

OwnsFile(d, j) == d.es[j].lev <= d.lev
\* a link to unit j
ToUnit(d, j) == [file |-> d.names[d.at[j]], frag |-> ~OwnsFile(d, j), next |-> IF d.es[j].head = <<>> THEN {} ELSE {d.es[j].head[1]}]
\* a link to the object that starts with event i
ToObject(d, i) ==
  IF d.es[i].k = "sec" THEN ToUnit(d, i - 1)
  ELSE [file |-> d.names[d.at[i]], frag |-> TRUE, next |-> {After(d, i, i)} \cup (IF d.es[i].k = "caption" THEN {After(d, i, d.es[i].float)} ELSE {})]
StartOf(d, o) == CHOOSE i \in DOMAIN d.es : d.es[i].k \in {"sec", "caption", "eqn", "row", "thm", "item", "bibitem", "anchor"} /\ d.es[i].o = o

\* the object a reference is about: by label, or by the name of an anchor
Referred(d, e) ==
  IF e.cmd # "hyperlink" THEN N!Resolve(d.num, e.l)
  ELSE LET a == {i \in DOMAIN d.es : d.es[i].k = "anchor" /\ d.es[i].l = e.l} IN IF a = {} THEN 0 ELSE d.es[CHOOSE i \in a : TRUE].o

(* ------------------------------------------------------- contents and navigation *)
Units(d) == {j \in DOMAIN d.es : d.es[j].k = "unit"}
Subs(d, j) == {m \in Units(d) : m > j /\ S!Around(d.es, m) = j}
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : \A n \in s : m <= n IN <<m>> \o InOrder(s \ {m})
RECURSIVE Nested(_, _, _, _), Entries(_, _, _, _)
Shown(d, t, j) == {m \in Subs(d, j) : t.nonfiles \/ OwnsFile(d, m)}
Nested(d, t, j, level) == IF level < t.tocdepth /\ (t.tocmax = 0 \/ level < t.tocmax) THEN Entries(d, t, InOrder(Shown(d, t, j)), level + 1) ELSE <<>>
Entries(d, t, ms, level) == IF ms = <<>> THEN <<>> ELSE <<ms[1]>> \o Nested(d, t, ms[1], level) \o Entries(d, t, Tail(ms), level)
Contents(d, t, j) ==
  IF t.tocdepth < 1 \/ \A m \in Subs(d, j) : ~OwnsFile(d, m) THEN <<>> ELSE Entries(d, t, InOrder(Shown(d, t, j)), 1)
FileUnit(d, f) == CHOOSE j \in Units(d) : OwnsFile(d, j) /\ d.at[j] = f
RECURSIVE Crumbs(_, _)
Crumbs(d, j) == IF j = 1 THEN <<>> ELSE LET p == S!Around(d.es, j) IN Append(Crumbs(d, p), p)

Document(t) ==
  LET lev == S!Level(t)
      es == t.events
      fs == TLCEval(S!Files(t))
      RECURSIVE RunN(_, _)
      RunN(st, i) == IF i > Len(es) THEN st ELSE RunN(TLCEval(N!Do(st, es[i])), i + 1)
  IN [es |-> es, lev |-> lev, names |-> [i \in DOMAIN fs |-> fs[i].name], at |-> TLCEval(Places(<<>>, 0, es, 1, lev)),
      num |-> TLCEval(RunN(N!Start(t.cls, 10), 1))]
=============================================================================
