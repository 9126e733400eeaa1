------------------------------- MODULE Digest -------------------------------
(* C07: the document tree.  A machine reads a document token by token; its    *)
(* stack holds the containers that are open.  A word is emitted with the      *)
(* chain of its containers and, in running text, typographic substitutions.   *)
(*                                                                            *)
(* Tokens [t |-> "w", s]                    a word: its characters            *)
(*        [t |-> "raw", k, s]               \verb or a verbatim environment   *)
(*        [t |-> "par"]  [t |-> "decl"]                                       *)
(*        [t |-> "sec", k, lv]              sectioning unit; args follow      *)
(*        [t |-> "arg", k]                  argument k of the top container   *)
(*        [t |-> "cmd", k]                  command whose content follows     *)
(*        [t |-> "grp"]  [t |-> "math", k]  [t |-> "env", k]  [t |-> "end"]   *)
(*        [t |-> "list", k]  [t |-> "item"]  [t |-> "table", k]  [t |-> "cell"]  [t |-> "row"] *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Substitutions, longest first; results are code points.                    *)
Subs == << <<"-", "-", "-">>, <<"`", "`">>, <<"'", "'">>, <<"-", "-">>, <<"\"", "`">>, <<"\"", "'">>, <<"`">>, <<"'">> >>
Code == <<"U+2014", "U+201C", "U+201D", "U+2013", "U+201E", "U+201C", "U+2018", "U+2019">>
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Sub(_)
Sub(s) == IF s = <<>> THEN <<>>
          ELSE LET m == {i \in DOMAIN Subs : Starts(s, Subs[i])} IN
               IF m = {} THEN <<s[1]>> \o Sub(Tail(s))
               ELSE LET i == CHOOSE i \in m : \A j \in m : i <= j IN <<Code[i]>> \o Sub(SubSeq(s, Len(Subs[i]) + 1, Len(s)))

-----------------------------------------------------------------------------
(* Frames: [t, k, lv].  k is the label in the chain, "" for none.             *)
F(t, k, lv) == [t |-> t, k |-> k, lv |-> lv]
Boot == [fr |-> <<F("doc", "document", -100)>>, out |-> <<>>]
Top(st) == st.fr[Len(st.fr)]
Push(st, f) == [st EXCEPT !.fr = Append(@, f)]
Pop(st) == [st EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Chain(st) == LET C[i \in 0..Len(st.fr)] == IF i = 0 THEN <<>> ELSE IF st.fr[i].k = "" THEN C[i - 1] ELSE Append(C[i - 1], st.fr[i].k) IN C[Len(st.fr)]
InMath(st) == \E i \in DOMAIN st.fr : st.fr[i].t = "math"
\* alt: what the implementation is known to make of mathematics in table cells instead
Celled(st) == InMath(st) /\ \E i, j \in DOMAIN st.fr : i < j /\ st.fr[i].t = "math" /\ st.fr[j].t = "cell"
Word(st, s) == [st EXCEPT !.out = Append(@, [s |-> s, c |-> Chain(st), alt |-> IF Celled(st) THEN Sub(s) ELSE s])]
Known(out, words) == [i \in DOMAIN out |-> IF i \in DOMAIN words /\ words[i].s = out[i].alt THEN [out[i] EXCEPT !.s = out[i].alt] ELSE out[i]]
RECURSIVE Leave(_, _)
\* the units that a unit of level lv is not inside of are over
Leave(st, lv) == IF Top(st).t = "sec" /\ Top(st).lv >= lv THEN Leave(Pop(st), lv) ELSE st

Holds(t) == t \in {"doc", "sec", "arg", "cmd", "grp", "env", "item", "cell", "math"}
Flow(t) == t \in {"doc", "sec", "env", "item"}           \* paragraphs can start here
CanStep(st, tk) ==
  LET t == Top(st).t IN
  CASE tk.t \in {"w", "decl", "grp", "cmd"} -> Holds(t)
    [] tk.t \in {"raw", "math"} -> Holds(t) /\ ~InMath(st)
    [] tk.t = "par" -> Flow(t) \/ (t = "cmd" /\ Top(st).k = "footnote") \/ t = "grp"
    [] tk.t = "sec" -> t \in {"doc", "sec"}
    [] tk.t = "arg" -> t \in {"sec", "cmd", "item", "env"}
    [] tk.t \in {"env", "list"} -> Flow(t) \/ t \in {"cell", "cmd", "grp"}
    [] tk.t = "table" -> Flow(t) \/ t \in {"cell", "cmd", "grp", "math"}
    [] tk.t = "item" -> t \in {"list", "item"}
    [] tk.t \in {"cell", "row"} -> t = "cell"
    [] tk.t = "end" -> t \in {"arg", "cmd", "grp", "math", "env", "item", "cell"}
    [] OTHER -> FALSE
Step(st, tk) ==
  CASE tk.t = "w" -> Word(st, IF InMath(st) THEN tk.s ELSE Sub(tk.s))
    [] tk.t = "raw" -> Pop(Word(Push(st, F("raw", tk.k, 0)), tk.s))
    [] tk.t \in {"par", "decl"} -> st
    [] tk.t = "sec" -> Push(Leave(st, tk.lv), F("sec", tk.k, tk.lv))
    [] tk.t = "arg" -> Push(st, F("arg", tk.k, 0))
    [] tk.t \in {"cmd", "env", "math", "list"} -> Push(st, F(tk.t, tk.k, 0))
    [] tk.t = "grp" -> Push(st, F("grp", "", 0))
    [] tk.t = "item" -> Push(IF Top(st).t = "item" THEN Pop(st) ELSE st, F("item", "item", 0))
    [] tk.t = "table" -> Push(Push(Push(st, F("table", tk.k, 0)), F("row", "ArrayRow", 0)), F("cell", "ArrayCell", 0))
    [] tk.t = "cell" -> Push(Pop(st), F("cell", "ArrayCell", 0))
    [] tk.t = "row" -> Push(Push(Pop(Pop(st)), F("row", "ArrayRow", 0)), F("cell", "ArrayCell", 0))
    [] OTHER -> IF Top(st).t = "item" THEN Pop(Pop(st)) ELSE IF Top(st).t = "cell" THEN Pop(Pop(Pop(st))) ELSE Pop(st)
Complete(st) == Top(st).t \in {"doc", "sec"}

-----------------------------------------------------------------------------
(* The tree that was built: nodes, in the order of a depth-first walk that    *)
(* takes arguments before content: [k, lv, d, p, a]: label, level, index of   *)
(* the node whose descendants it was found in, index of its parentNode (0:    *)
(* none, -1: a node that the walk does not reach), is it an argument?         *)
(* words: [s, n]: characters, index of the node that holds them.              *)
SecLevels == -1..10
Unit(n) == n.k # "" /\ n.lv \in SecLevels
Bad(nodes) ==
  LET N == DOMAIN nodes
      kid(i) == nodes[nodes[i].d]
  IN IF \E i \in N : nodes[i].d = -2 THEN "a node is in two places: " \o ToString(CHOOSE i \in N : nodes[i].d = -2)
     ELSE IF \E i \in N : nodes[i].d # nodes[i].p THEN "the parent of a node is not where the node is: " \o ToString(nodes[CHOOSE i \in N : nodes[i].d # nodes[i].p])
     ELSE IF \E i \in N : nodes[i].d > 0 /\ nodes[nodes[i].d].par /\ nodes[i].par THEN "a paragraph in a paragraph"
     ELSE IF \E i \in N : nodes[i].d > 0 /\ ~nodes[i].a /\ nodes[nodes[i].d].sec /\ ~(nodes[i].par \/ (nodes[i].sec /\ nodes[i].lv > nodes[nodes[i].d].lv))
          THEN LET i == CHOOSE i \in N : nodes[i].d > 0 /\ ~nodes[i].a /\ nodes[nodes[i].d].sec /\ ~(nodes[i].par \/ (nodes[i].sec /\ nodes[i].lv > nodes[nodes[i].d].lv))
               IN "in a unit: " \o ToString(<<nodes[nodes[i].d], nodes[i]>>)
     ELSE IF \E i \in N : nodes[i].sec /\ nodes[i].d > 0 /\ ~(nodes[nodes[i].d].sec \/ nodes[nodes[i].d].k = "document") THEN "a unit inside something else"
     ELSE ""
RECURSIVE Path(_, _)
Path(nodes, i) == IF i <= 0 THEN <<>> ELSE IF nodes[i].k = "" THEN Path(nodes, nodes[i].p) ELSE Append(Path(nodes, nodes[i].p), nodes[i].k)
Diff(out, nodes, words) ==
  LET m == IF Len(out) < Len(words) THEN Len(out) ELSE Len(words)
      wrong == {i \in 1..m : out[i].s # words[i].s}
      moved == {i \in 1..m : out[i].c # Path(nodes, words[i].n)}
      Min(S) == CHOOSE i \in S : \A j \in S : i <= j
  IN IF wrong # {} THEN "word " \o ToString(<<Min(wrong), "expected", out[Min(wrong)].s, "got", words[Min(wrong)].s>>)
     ELSE IF Len(out) # Len(words) THEN "number of words " \o ToString(<<"expected", Len(out), "got", Len(words)>>)
     ELSE IF moved # {} THEN "containers of " \o ToString(<<Min(moved), out[Min(moved)].s, "expected", out[Min(moved)].c, "got", Path(nodes, words[Min(moved)].n)>>)
     ELSE Bad(nodes)
=============================================================================
