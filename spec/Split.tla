------------------------------- MODULE Split -------------------------------
(* Rendering a document into files.  A document is a sequence of events       *)
(*   [k |-> "unit", lev, vars, head]   a unit begins: its level, what names   *)
(*                                     the generator may use, its heading     *)
(*   [k |-> "w", s]                    a piece of body text                   *)
(*   [k |-> "f", s]                    a piece of footnote text               *)
(* the first of which is the unit of the whole document.  The renderer walks  *)
(* through it with the stack of open units; every file collects body and      *)
(* notes.  Names come from the generator of Filenames.tla.                    *)
EXTENDS Filenames, TLC

(* a template that names a single file: everything goes there *)
Single(t) == t.wild = <<>> /\ Len(t.static) = 1
Level(t) == IF Single(t) THEN -10 ELSE t.split
DocLevel == -1000                       (* the document always has a file *)

Boot(t) == [stack |-> <<>>, files |-> <<>>, gen |-> New(t.static, t.wild, t.conf, {}, [jobname |-> t.jobname])]

RECURSIVE Close(_, _)                    (* units of this level and below end *)
Close(stack, lev) == IF stack # <<>> /\ stack[Len(stack)].lev >= lev THEN Close(SubSeq(stack, 1, Len(stack) - 1), lev) ELSE stack

Target(st) == st.stack[Len(st.stack)].file
PutBody(st, xs) == [st EXCEPT !.files[Target(st)].body = @ \o xs]
PutNote(st, x) == [st EXCEPT !.files[Target(st)].notes = Append(@, x)]

RECURSIVE BindAll(_, _)
BindAll(g, vs) == IF vs = <<>> THEN g ELSE BindAll(Bind(g, vs[1][1], vs[1][2]), Tail(vs))

Step(st, e, lev) ==
  CASE e.k = "w" -> PutBody(st, << <<"w", e.s>> >>)
    [] e.k = "f" -> PutNote(st, <<"f", e.s>>)
    [] e.k = "unit" ->
         LET open == Close(st.stack, e.lev)
             heads == [i \in DOMAIN e.head |-> <<"h", e.head[i]>>] IN
         IF e.lev <= lev
         THEN LET r == Request(BindAll(st.gen, e.vars))
                  s == [st EXCEPT !.gen = r[1], !.files = Append(@, [name |-> IF r[2] = "name" THEN r[3] ELSE "?", body |-> <<>>, notes |-> <<>>]),
                                  !.stack = Append(open, [lev |-> e.lev, file |-> Len(st.files) + 1])]
              IN PutBody(s, heads)
         ELSE PutBody([st EXCEPT !.stack = Append(open, [lev |-> e.lev, file |-> open[Len(open)].file])], heads)
    [] OTHER -> st                       \* events of Links.tla

RECURSIVE Walk(_, _, _, _)
Walk(st, es, i, lev) == IF i > Len(es) THEN st ELSE Walk(TLCEval(Step(st, es[i], lev)), es, i + 1, lev)
Files(t) == Walk(Boot(t), t.events, 1, Level(t)).files

(* ------------------------------------------------ what is asked of the files *)
(* the unit an event belongs to, and the unit around a unit *)
UnitOf(es, i) == CHOOSE j \in 1..i : es[j].k = "unit" /\ \A m \in j + 1..i : es[m].k # "unit"
Around(es, j) == CHOOSE m \in 1..j - 1 : es[m].k = "unit" /\ es[m].lev < es[j].lev /\ \A n \in m + 1..j - 1 : es[n].k = "unit" => es[n].lev >= es[j].lev
RECURSIVE Owner(_, _, _)                 (* the nearest unit around that has a file *)
Owner(es, j, lev) == IF es[j].lev <= lev THEN j ELSE Owner(es, Around(es, j), lev)
FileUnits(es, lev) == {j \in DOMAIN es : es[j].k = "unit" /\ es[j].lev <= lev}
Rank(s, j) == Cardinality({x \in s : x <= j})
Of(es, lev, j, kind) == {i \in DOMAIN es : es[i].k = kind /\ Owner(es, UnitOf(es, i), lev) = j}
=============================================================================
