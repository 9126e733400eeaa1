----------------------------- MODULE MC_Tables -----------------------------
(* Every short document.  The tree is compared with what the token sequence  *)
(* says when it is read with a depth counter only.                           *)
EXTENDS Tables, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, OutLen, Kind
VARIABLES st, hist
vars == <<st, hist>>
Specs == {<<"c", "|", "c">>, <<"|", "*", "{", "2", "}", "{", "l", "|", "}">>}
Base == {[t |-> "w"], [t |-> "decl", f |-> "b"], [t |-> "list", kind |-> "itemize"], [t |-> "endlist"], [t |-> "item", has |-> FALSE, term |-> <<>>],
         [t |-> "table", spec |-> <<"c", "|", "c">>], [t |-> "endtable"], [t |-> "cell"], [t |-> "row"]}
Alphabet == CASE Kind = "nest" -> Base \cup {[t |-> "{"], [t |-> "}"], [t |-> "item", has |-> TRUE, term |-> <<"t">>]}
              [] OTHER -> {[t |-> "w"], [t |-> "cell"], [t |-> "row"], [t |-> "endtable"], [t |-> "hline"], [t |-> "cline", a |-> 1, b |-> 1], [t |-> "cline", a |-> 2, b |-> 2],
                           [t |-> "multi", n |-> 2, spec |-> <<"c", "|">>, words |-> <<"m">>], [t |-> "multi", n |-> 1, spec |-> <<"|", "c">>, words |-> <<>>]}
                          \cup {[t |-> "table", spec |-> s] : s \in Specs}
Emitted(h, tk) == IF tk.t = "w" THEN [t |-> "w", w |-> ToString(Len(h) + 1)] ELSE tk
\* nothing but lists between a list and its first item; closing is always possible in the tokens that are left
Depth(s) == Cardinality({i \in DOMAIN s : s[i].k \in {"item", "table", "group"}})
Init == st = Boot /\ hist = <<>>
Next == \E tk \in Alphabet :
  LET e == Emitted(hist, tk) IN
  /\ CanStep(st, e)
  /\ LET s == Step(st, e) IN
     /\ Len(hist) + 1 + Depth(s) + (IF Top(s).k = "list" THEN 2 ELSE 0) <= MaxLen
     /\ Kind = "table" => (Len(hist) = 0 <=> tk.t = "table")
     /\ st' = s /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Opens == {"list", "table", "{"}
Closes == {"endlist", "endtable", "}"}
D(h, i) == Cardinality({j \in 1..i : h[j].t \in Opens}) - Cardinality({j \in 1..i : h[j].t \in Closes})
\* a declaration at j holds at i: its scope is still open, and it is not in an earlier cell or item
InScope(h, j, i, stops) == \A x \in (j + 1)..i : D(h, x) >= D(h, j) /\ ~(D(h, x) = D(h, j) /\ h[x].t \in stops)
Must(h, i) == {h[j].f : j \in {j \in 1..i : h[j].t = "decl" /\ InScope(h, j, i, {"cell", "row", "item"})}}
May(h, i) == {h[j].f : j \in {j \in 1..i : h[j].t = "decl" /\ InScope(h, j, i, {"cell", "row"})}}
RECURSIVE Flat(_), FlatR(_)
FlatR(rows) == IF rows = <<>> THEN <<>> ELSE (IF rows[1] = <<>> THEN <<>> ELSE Flat(rows[1][1].c) \o FlatR(<<Tail(rows[1])>>)) \o FlatR(Tail(rows))
Flat(c) == IF c = <<>> THEN <<>> ELSE
  (CASE c[1].k = "w" -> <<c[1]>>
     [] c[1].k = "t" -> FlatR(c[1].rows)
     [] OTHER -> LET F[i \in 0..Len(c[1].items)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o c[1].items[i].term \o Flat(c[1].items[i].c) IN F[Len(c[1].items)]) \o Flat(Tail(c))
Written(h) == LET F[i \in 0..Len(h)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o (CASE h[i].t = "w" -> <<h[i].w>> [] h[i].t = "item" -> h[i].term [] h[i].t = "multi" -> h[i].words [] OTHER -> <<>>) IN F[Len(h)]
Tree == Flat(st[1].c)
Whole == Complete(st)
\* every word once, in order
InOrder == Whole => [i \in DOMAIN Tree |-> Tree[i].w] = Written(hist)
Formats == Whole => \A i \in DOMAIN Tree : \A p \in DOMAIN hist : (hist[p].t = "w" /\ hist[p].w = Tree[i].w) =>
                    Tree[i].f = Must(hist, p) /\ Tree[i].f \cup Tree[i].m = May(hist, p)
\* a list that is opened at j has the items that are written at its depth
Parts(h, j, ts) == {x \in (j + 1)..Len(h) : h[x].t \in ts /\ D(h, x) = D(h, j) /\ \A y \in j..x : D(h, y) >= D(h, j)}
RECURSIVE Lists(_), ListsR(_)
ListsR(rows) == IF rows = <<>> THEN <<>> ELSE (IF rows[1] = <<>> THEN <<>> ELSE Lists(rows[1][1].c) \o ListsR(<<Tail(rows[1])>>)) \o ListsR(Tail(rows))
Lists(c) == IF c = <<>> THEN <<>> ELSE
  (CASE c[1].k = "w" -> <<>>
     [] c[1].k = "t" -> ListsR(c[1].rows)
     [] OTHER -> <<Len(c[1].items)>> \o LET F[i \in 0..Len(c[1].items)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Lists(c[1].items[i].c) IN F[Len(c[1].items)]) \o Lists(Tail(c))
Items == Whole => Lists(st[1].c) = [i \in 1..Cardinality({j \in DOMAIN hist : hist[j].t = "list"}) |->
                      LET j == SetToSortSeq({j \in DOMAIN hist : hist[j].t = "list"}, <)[i] IN Cardinality(Parts(hist, j, {"item"}))]
\* tables: no row is wider than the columns, and the cells of a row are what its separators make them
Tables0 == {i \in DOMAIN st[1].c : st[1].c[i].k = "t"}
Widths == Whole => \A i \in Tables0 : LET t == st[1].c[i] IN
   /\ Len(t.rules) = Len(t.rows) + 1
   /\ \A r \in DOMAIN t.rows : Span(t.rows[r]) <= Len(t.cols.cols) /\ t.rows[r] # <<>>
\* a table at the start: its rows and cells counted in the tokens
Counts == (Whole /\ Kind = "table" /\ Len(hist) > 0) => LET t == st[1].c[1] IN
   /\ Len(t.rows) <= 1 + Cardinality({i \in DOMAIN hist : hist[i].t = "row"})
   /\ LET ends == <<1>> \o SetToSortSeq({i \in DOMAIN hist : hist[i].t \in {"row", "endtable"}}, <)
          row(n) == SubSeq(hist, ends[n] + 1, ends[n + 1] - 1)
          full == SelectSeq([n \in 1..(Len(ends) - 1) |-> row(n)], LAMBDA x : \E i \in DOMAIN x : x[i].t \in {"w", "multi"})
          ruled(x) == {c \in 1..2 : \E i \in DOMAIN x : x[i].t = "hline" \/ (x[i].t = "cline" /\ x[i].a <= c /\ c <= x[i].b)}
      IN /\ Len(full) = Len(t.rows)
         /\ \A n \in DOMAIN full : Len(t.rows[n]) = 1 + Cardinality({i \in DOMAIN full[n] : full[n][i].t = "cell"})
         /\ \A c \in 1..2 : {n \in DOMAIN t.rules : c \in t.rules[n]} =
               {1 + Cardinality({m \in 1..(n - 1) : \E i \in DOMAIN row(m) : row(m)[i].t \in {"w", "multi"}}) : n \in {n \in 1..(Len(ends) - 1) : c \in ruled(row(n))}}
-----------------------------------------------------------------------------
RECURSIVE Ext(_, _)
Ext(done, front) ==
  IF front = {} THEN done
  ELSE LET next == {x \in UNION {{[s |-> Step(f.s, Emitted(f.h, tk)), h |-> Append(f.h, Emitted(f.h, tk))] : tk \in {tk \in Alphabet : CanStep(f.s, Emitted(f.h, tk)) /\ (Kind = "table" => (f.h = <<>> <=> tk.t = "table"))}} : f \in front} :
                       Len(x.h) + Depth(x.s) + (IF Top(x.s).k = "list" THEN 2 ELSE 0) <= OutLen}
       IN Ext(done \cup {x.h : x \in {x \in next : Complete(x.s)}}, next)
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq(Ext({}, {[s |-> Boot, h |-> <<>>]})))
=============================================================================
