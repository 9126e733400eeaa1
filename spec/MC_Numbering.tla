--------------------------- MODULE MC_Numbering ----------------------------
(* Every short sequence of numbering events.  The counters are compared with *)
(* their history: the last value given, plus the steps since; labels with    *)
(* the table of pending references that is patched when a label is seen.     *)
EXTENDS Numbering, Json, IOUtils, SequencesExt
CONSTANTS Cls, MaxLen, OutLen, Kind
VARIABLES st, hist, impl
vars == <<st, hist, impl>>
S(c) == [k |-> "sec", c |-> c, star |-> FALSE]
Alphabet ==
  IF Kind = "numbers"
  THEN {S(c) : c \in {"section", "subsection"} \cup IF Cls = "article" THEN {} ELSE {"chapter"}}
       \cup {[k |-> "sec", c |-> "section", star |-> TRUE], [k |-> "eqn"], [k |-> "row"], [k |-> "nonumber"], [k |-> "thm", n |-> "thm"], [k |-> "thm", n |-> "lem"],
             [k |-> "caption", c |-> "figure", star |-> FALSE],
             [k |-> "set", n |-> "section", v |-> 3], [k |-> "add", n |-> "subsection", v |-> 2], [k |-> "step", n |-> "section"], [k |-> "appendix"]}
  ELSE IF Kind = "lists"
  THEN {[k |-> "list", n |-> "enumerate"], [k |-> "list", n |-> "itemize"], [k |-> "endlist"], [k |-> "item", opt |-> FALSE], [k |-> "item", opt |-> TRUE],
        [k |-> "set", n |-> "enumi", v |-> 4], [k |-> "label", l |-> "a"]}
  ELSE {S("section"), [k |-> "eqn"], [k |-> "close"], [k |-> "label", l |-> "a"], [k |-> "label", l |-> "b"], [k |-> "ref", l |-> "a"], [k |-> "ref", l |-> "b"], [k |-> "ref", l |-> "c"]}
Math(h) == LET i == {i \in DOMAIN h : h[i].k \in {"eqn", "close", "thm"}}
           IN IF i = {} THEN FALSE ELSE h[CHOOSE m \in i : \A x \in i : x <= m].k = "eqn"
Allowed(s, h, e) ==
  LET inlist == s.lists /= <<>>
      last == IF h = <<>> THEN "" ELSE h[Len(h)].k
  IN CASE e.k \in {"endlist", "item"} -> inlist /\ ~(e.k = "endlist" /\ last = "list")
       [] e.k = "list" -> last /= "list" /\ Enums(s) < 4
       [] e.k = "row" -> s.saved /= <<>> /\ Math(h)
       [] e.k = "nonumber" -> s.saved /= <<>> /\ Math(h) /\ last \in {"eqn", "row"}
       [] e.k = "close" -> s.saved /= <<>>
       [] e.k \in {"sec", "eqn", "thm", "caption", "appendix"} -> s.saved = <<>>
       [] e.k = "label" -> e.l \notin DOMAIN s.lab /\ s.cur /= NoObj /\ (inlist => last = "item")
       [] OTHER -> ~inlist \/ last = "item"
Full(e, o) == CASE e.k \in {"sec", "eqn", "row", "thm", "item", "caption"} -> [x \in DOMAIN e \cup {"o"} |-> IF x = "o" THEN o ELSE e[x]]
                [] OTHER -> e
Boot == Run(Start(Cls, 2), <<[k |-> "newtheorem", n |-> "thm", star |-> FALSE, shared |-> "", within |-> IF Cls = "article" THEN "section" ELSE "chapter"],
                             [k |-> "newtheorem", n |-> "lem", star |-> FALSE, shared |-> "thm", within |-> ""]>>)
\* in "numbers" an environment is closed by the next event that is not a row of it
Close(s) == IF s.saved = <<>> THEN s ELSE EndGroup(s)
Prepared(s, e) == IF Kind = "numbers" /\ e.k \notin {"row", "nonumber"} THEN Close(s) ELSE s
Emit(h, e) == LET o == Len(h) + 1 IN IF e.k = "nonumber" THEN [k |-> "nonumber", o |-> Len(h)] ELSE Full(e, o)
Grow(s, h, e) == Do(Prepared(s, e), Emit(h, e))
\* the implementation of references
NoImpl == [labels |-> <<>>, pending |-> <<>>, to |-> <<>>]
Patch(im, e, h, s) ==
  CASE e.k = "label" -> [labels |-> Fn(im.labels, e.l, s.cur), to |-> [r \in DOMAIN im.to |-> IF e.l \in DOMAIN im.pending /\ r \in im.pending[e.l] THEN s.cur ELSE im.to[r]],
                         pending |-> [l \in DOMAIN im.pending \ {e.l} |-> im.pending[l]]]
    [] e.k = "ref" -> LET r == Len(h) + 1
                      IN IF e.l \in DOMAIN im.labels THEN [im EXCEPT !.to = Fn(@, r, im.labels[e.l])]
                         ELSE [im EXCEPT !.to = Fn(@, r, NoObj), !.pending = Fn(@, e.l, (IF e.l \in DOMAIN @ THEN @[e.l] ELSE {}) \cup {r})]
    [] OTHER -> im
Init == st = Boot /\ hist = <<>> /\ impl = NoImpl
Next == \E e \in Alphabet :
  /\ Len(hist) < MaxLen
  /\ Allowed(Prepared(st, e), hist, e)
  /\ st' = Grow(st, hist, e) /\ impl' = Patch(impl, e, hist, st) /\ hist' = Append(hist, Emit(hist, e))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
StepOf(e) == CASE e.k = "sec" -> IF e.star THEN "" ELSE e.c
               [] e.k \in {"eqn", "row"} -> "equation"
               [] e.k = "caption" -> e.c
               [] e.k = "thm" -> "thm"
               [] e.k = "step" -> e.n
               [] OTHER -> ""
\* does e give c a value whatever c was?
Gives(e, c) ==
  CASE e.k = "set" /\ e.n = c -> {e.v}
    [] e.k = "appendix" /\ Cls = "article" /\ c \in {"section", "subsection"} -> {0}
    [] e.k = "appendix" /\ Cls /= "article" /\ c \in {"chapter", "section"} -> {0}
    [] StepOf(e) /= "" /\ StepOf(e) \in Ancestors(Boot, c) -> {0}
    [] OTHER -> {}
Adds(e, c) == (IF StepOf(e) = c THEN 1 ELSE 0) + (IF e.k = "add" /\ e.n = c THEN e.v ELSE 0) - (IF e.k = "nonumber" /\ c = "equation" THEN 1 ELSE 0)
RECURSIVE SumAdds(_, _)
SumAdds(h, c) == IF h = <<>> THEN 0 ELSE Adds(h[1], c) + SumAdds(Tail(h), c)
ValueOf(h, c) ==
  LET given == {i \in DOMAIN h : Gives(h[i], c) /= {}}
  IN IF given = {} THEN SumAdds(h, c)
     ELSE LET i == CHOOSE i \in given : \A x \in given : x <= i
          IN (CHOOSE v \in Gives(h[i], c) : TRUE) + SumAdds(SubSeq(h, i + 1, Len(h)), c)
CounterLaw == Kind = "numbers" => \A c \in {"chapter", "section", "subsection", "subsubsection", "equation", "figure", "thm"} : st.val[c] = ValueOf(hist, c)
\* numbers of one counter never repeat unless a counter is assigned
NoRepeat == (Kind = "numbers" /\ \A i \in DOMAIN hist : hist[i].k \notin {"set", "add", "appendix", "step"}) =>
  \A i, j \in DOMAIN hist : i < j /\ StepOf(hist[i]) /= "" /\ StepOf(hist[i]) = StepOf(hist[j]) /\ hist[i].o \in DOMAIN st.num /\ st.num[hist[i].o] /= "" =>
     st.num[hist[i].o] /= st.num[hist[j].o]
\* items count from 1 within their list
ItemLaw == (Kind = "lists" /\ \A i \in DOMAIN hist : hist[i].k /= "set") =>
  \A i \in DOMAIN hist : (hist[i].k = "item" /\ ~hist[i].opt) =>
     LET depth(j) == Cardinality({x \in 1..j : hist[x].k = "list"}) - Cardinality({x \in 1..j : hist[x].k = "endlist"})
         d == depth(i)
         start == CHOOSE x \in 1..i : hist[x].k = "list" /\ depth(x) = d /\ \A y \in x + 1..i : ~(hist[y].k = "list" /\ depth(y) = d)
     IN hist[start].n = "enumerate" => st.num[hist[i].o] = ToString(Cardinality({y \in start..i : hist[y].k = "item" /\ ~hist[y].opt /\ depth(y) = d}))
RefLaw == \A i \in DOMAIN hist : hist[i].k = "ref" => impl.to[i] = Resolve(st, hist[i].l)
----------------------------------------------------------------------------
GrowSet(X) == UNION {{[s |-> Grow(x.s, x.h, e), h |-> Append(x.h, Emit(x.h, e))] : e \in {e \in Alphabet : Allowed(Prepared(x.s, e), x.h, e)}} : x \in X}
Levels[i \in 0..OutLen] == IF i = 0 THEN {[s |-> Boot, h |-> <<>>]} ELSE GrowSet(Levels[i - 1])
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq({x.h : x \in Levels[OutLen]}))
=============================================================================
