------------------------------- MODULE Tables -------------------------------
(* C10: lists and tables.  A machine reads the structure of a document token *)
(* by token; its stack holds the open documents, lists, items, tables, cells, *)
(* groups, its result is the tree of lists and tables with their words.       *)
(*                                                                            *)
(* Tokens [t |-> "w", w]          a word                                      *)
(*        [t |-> "list", kind]  [t |-> "endlist"]                             *)
(*        [t |-> "item", has, term]       \item or \item[term]                *)
(*        [t |-> "table", spec]  [t |-> "endtable"]     spec: characters      *)
(*        [t |-> "cell"]  [t |-> "row"]  [t |-> "hline"]  [t |-> "cline", a, b]*)
(*        [t |-> "multi", n, spec, words]                                     *)
(*        [t |-> "decl", f]  [t |-> "{"]  [t |-> "}"]  [t |-> "par"]          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Column specifications: which columns have a rule at their right, and       *)
(* whether the first has one at its left.                                     *)
RECURSIVE Close(_, _, _)
Close(s, i, d) == IF i > Len(s) THEN Len(s)
                  ELSE IF s[i] = "{" THEN Close(s, i + 1, d + 1)
                  ELSE IF s[i] = "}" THEN (IF d = 1 THEN i ELSE Close(s, i + 1, d - 1))
                  ELSE Close(s, i + 1, d)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
NumOf(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE ColSpec(_, _)
\* acc: [left, cols: <<rule at the right?>>]
ColSpec(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET c == s[1]
           After(i) == SubSeq(s, i + 1, Len(s))            \* what follows position i
           arg == Close(s, 3, 1)                           \* end of the group that starts at 2
       IN IF c = "|" THEN ColSpec(After(1), IF acc.cols = <<>> THEN [acc EXCEPT !.left = TRUE]
                                            ELSE [acc EXCEPT !.cols[Len(acc.cols)] = TRUE])
          ELSE IF c \in {"@", "!", ">", "<"} THEN ColSpec(After(arg), acc)
          ELSE IF c = "*" THEN LET body == Close(s, arg + 2, 1) IN
                               ColSpec(Rep(SubSeq(s, arg + 2, body - 1), NumOf(s[3])) \o After(body), acc)
          ELSE IF c \in {"p", "m", "b"} THEN ColSpec(After(arg), [acc EXCEPT !.cols = Append(@, FALSE)])
          ELSE IF c = " " THEN ColSpec(After(1), acc)
          ELSE ColSpec(After(1), [acc EXCEPT !.cols = Append(@, FALSE)])
Spec0(s) == ColSpec(s, [left |-> FALSE, cols |-> <<>>])

-----------------------------------------------------------------------------
(* Frames.                                                                    *)
Doc == [k |-> "doc", f |-> {}, m |-> {}, c |-> <<>>]
Boot == <<Doc>>
Top(st) == st[Len(st)]
Under(st) == SubSeq(st, 1, Len(st) - 1)
Emit(st, x) == [st EXCEPT ![Len(st)].c = Append(@, x)]
\* f: the formats that a word has; m: what it may have besides, declared in an earlier item
Word(w, f, m) == [k |-> "w", w |-> w, f |-> f, m |-> m]
Words(ws, f, m) == [i \in DOMAIN ws |-> Word(ws[i], f, m)]
Holder(k) == k \in {"doc", "item", "cell", "group"}       \* frames that hold text
NewCell(f, m) == [k |-> "cell", f |-> f, m |-> m, c |-> <<>>, span |-> 1, own |-> FALSE, touched |-> FALSE, left |-> FALSE, right |-> FALSE]
\* the table frame under the top cell
Tab(st) == st[Len(st) - 1]

\* a cell is put into the row that its table is building
CellValue(c) == [span |-> c.span, c |-> c.c, own |-> c.own, touched |-> c.touched, left |-> c.left, right |-> c.right]
CloseCell(st) == LET c == Top(st) IN [Under(st) EXCEPT ![Len(st) - 1].row = Append(@, CellValue(c))]
\* rows of empty cells do not count as rows; the rules above them stay at that boundary
EmptyRow(row) == \A i \in DOMAIN row : row[i].c = <<>> /\ ~row[i].own
\* whether a row of empty groups and declarations counts is open
OpenRow(row) == EmptyRow(row) /\ \E i \in DOMAIN row : row[i].touched
CloseRow(st) == LET t == Top(st) IN
  [st EXCEPT ![Len(st)] = IF EmptyRow(t.row) THEN [t EXCEPT !.row = <<>>]
                          ELSE [t EXCEPT !.rows = Append(@, t.row), !.row = <<>>, !.rules = Append(@, {})]]
Columns(a, b) == {x \in 1..20 : a <= x /\ x <= b}
\* where the open row has room for a rule: nothing written in it yet
RowStart(st) == Top(st).k = "cell" /\ Top(st).c = <<>> /\ ~Top(st).own /\ Tab(st).row = <<>>
Span(row) == LET S[i \in 0..Len(row)] == IF i = 0 THEN 0 ELSE S[i - 1] + row[i].span IN S[Len(row)]

Touch(st) == IF Top(st).k = "cell" THEN [st EXCEPT ![Len(st)].touched = TRUE] ELSE st

CanStep(st, tk) ==
  LET k == Top(st).k IN
  CASE tk.t \in {"w", "{", "decl"} -> Holder(k)
    [] tk.t = "par" -> Holder(k) /\ k # "group"
    [] tk.t = "}" -> k = "group"
    [] tk.t \in {"list", "table"} -> Holder(k)
    [] tk.t = "item" -> k \in {"list", "item"}
    [] tk.t = "endlist" -> k = "item"
    [] tk.t = "cell" -> k = "cell" /\ Span(Tab(st).row) + Top(st).span < Len(Tab(st).spec.cols)
    [] tk.t \in {"row", "endtable"} -> k = "cell" /\ ~OpenRow(Append(Tab(st).row, CellValue(Top(st))))
    [] tk.t \in {"hline", "cline"} -> k = "cell" /\ RowStart(st)
    [] tk.t = "multi" -> k = "cell" /\ Top(st).c = <<>> /\ ~Top(st).own /\ Span(Tab(st).row) + tk.n <= Len(Tab(st).spec.cols)
    [] OTHER -> FALSE
Step(st, tk) ==
  LET top == Top(st) IN
  CASE tk.t = "w" -> Emit(st, Word(tk.w, top.f, top.m))
    [] tk.t = "par" -> st
    [] tk.t = "{" -> Append(Touch(st), [k |-> "group", f |-> top.f, m |-> top.m, c |-> <<>>])
    [] tk.t = "}" -> LET u == Under(st) IN [u EXCEPT ![Len(u)].c = @ \o top.c]
    [] tk.t = "decl" -> [Touch(st) EXCEPT ![Len(st)].f = @ \cup {tk.f}]
    [] tk.t = "list" -> Append(st, [k |-> "list", kind |-> tk.kind, f |-> top.f, m |-> top.m, items |-> <<>>])
    [] tk.t = "item" ->
         LET s == IF top.k = "item" THEN [Under(st) EXCEPT ![Len(st) - 1].items = Append(@, [has |-> top.has, term |-> top.term, c |-> top.c])] ELSE st
             \* what an item declares holds until the end of the list in TeX; a tree of items need not show that
             s1 == IF top.k = "item" THEN [s EXCEPT ![Len(s)].m = @ \cup (top.f \ Top(s).f) \cup top.m] ELSE s
         IN Append(s1, [k |-> "item", f |-> Top(s1).f, m |-> Top(s1).m, has |-> tk.has, term |-> Words(tk.term, Top(s1).f, Top(s1).m), c |-> <<>>])
    [] tk.t = "endlist" ->
         LET l == [Tab(st) EXCEPT !.items = Append(@, [has |-> top.has, term |-> top.term, c |-> top.c])]
         IN Emit(Under(Under(st)), [k |-> "l", kind |-> l.kind, items |-> l.items])
    [] tk.t = "table" ->
         \* rules[j+1]: the columns that are ruled between rows j and j+1
         Append(Append(st, [k |-> "table", spec |-> Spec0(tk.spec), f |-> top.f, m |-> top.m, rows |-> <<>>, row |-> <<>>, rules |-> <<{}>>]), NewCell(top.f, top.m))
    [] tk.t = "cell" -> Append(CloseCell(st), NewCell(Tab(st).f, Tab(st).m))
    [] tk.t = "row" -> LET s == CloseRow(CloseCell(st)) IN Append(s, NewCell(Top(s).f, Top(s).m))
    [] tk.t = "endtable" -> LET s == CloseRow(CloseCell(st))  t == Top(s) IN
                            Emit(Under(s), [k |-> "t", cols |-> t.spec, rows |-> t.rows, rules |-> t.rules])
    [] tk.t = "hline" -> [st EXCEPT ![Len(st) - 1].rules[Len(Tab(st).rules)] = Columns(1, 20)]
    [] tk.t = "cline" -> [st EXCEPT ![Len(st) - 1].rules[Len(Tab(st).rules)] = @ \cup Columns(tk.a, tk.b)]
    [] OTHER -> LET sp == Spec0(tk.spec) IN
                [st EXCEPT ![Len(st)].span = tk.n, ![Len(st)].own = TRUE, ![Len(st)].left = sp.left,
                           ![Len(st)].right = (sp.cols # <<>> /\ sp.cols[1]), ![Len(st)].c = @ \o Words(tk.words, top.f, top.m)]
RECURSIVE Run(_, _, _)
Run(st, ts, i) == IF i > Len(ts) THEN [ok |-> TRUE, st |-> st]
                  ELSE IF ~CanStep(st, ts[i]) THEN [ok |-> FALSE, st |-> st]
                  ELSE LET s == TLCEval(Step(st, ts[i])) IN Run(s, ts, i + 1)
Complete(st) == Len(st) = 1

-----------------------------------------------------------------------------
(* Borders: the rules between rows by column, and in a row by column end.     *)
Starts(row) == [i \in DOMAIN row |-> 1 + Span(SubSeq(row, 1, i - 1))]
\* the cell that covers column c of a row, or 0
At(row, c) == LET s == Starts(row) IN
   IF \E i \in DOMAIN row : s[i] <= c /\ c < s[i] + row[i].span THEN CHOOSE i \in DOMAIN row : s[i] <= c /\ c < s[i] + row[i].span ELSE 0
\* declared vertical rule at the end of column c of a row (c = 0: at its left edge)
Vertical(t, row, c) ==
  LET l == IF c = 0 THEN 0 ELSE At(row, c)
      r == At(row, c + 1)
  IN \/ l # 0 /\ (IF row[l].own THEN row[l].right ELSE t.cols.cols[c])
     \/ r # 0 /\ (IF row[r].own THEN row[r].left ELSE c = 0 /\ t.cols.left)
Inside(row, c) == c > 0 /\ At(row, c) # 0 /\ At(row, c) = At(row, c + 1)
Edges(row) == {c \in 0..Span(row) : ~Inside(row, c)}
\* a partial rule that ends inside a cell of an adjacent row cannot be drawn as a cell border
Cuts(t) == \E j \in 0..Len(t.rows) : \E c \in 1..19 :
   /\ (c \in t.rules[j + 1]) # ((c + 1) \in t.rules[j + 1])
   /\ \/ j > 0 /\ Inside(t.rows[j], c)
      \/ j < Len(t.rows) /\ Inside(t.rows[j + 1], c)

-----------------------------------------------------------------------------
(* Comparison of the tree with the one that the implementation built.  There  *)
(* a cell is [span, c, top, bottom, left, right].                             *)
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Diff(_, _), DiffC(_, _)
DiffList(v, o) ==
  IF v.kind # o.kind THEN "list of another kind"
  ELSE IF Len(v.items) # Len(o.items) THEN "items: " \o ToString(<<Len(v.items), Len(o.items)>>)
  ELSE LET D(i) == LET a == v.items[i]  b == o.items[i] IN
                   IF a.has # b.has THEN "term of item"
                   ELSE LET x == DiffC(a.term, b.term) IN IF x # "" THEN "term: " \o x ELSE DiffC(a.c, b.c)
       IN IF \A i \in DOMAIN v.items : D(i) = "" THEN "" ELSE D(CHOOSE i \in DOMAIN v.items : D(i) # "" /\ \A j \in 1..(i - 1) : D(j) = "")
DiffTable(v, o) ==
  LET r == Len(v.rows)
      n(i) == Span(v.rows[i])
      Cell(i, c) == o.rows[i][At(v.rows[i], c)]
      HObs(j, c) == (j > 0 /\ At(v.rows[j], c) # 0 /\ Cell(j, c).bottom) \/ (j < r /\ At(v.rows[j + 1], c) # 0 /\ Cell(j + 1, c).top)
      \* what becomes of a rule between two rows where one of them is shorter is open
      HCols(j) == {c \in 1..20 : (j < r => At(v.rows[j + 1], c) # 0) /\ (j > 0 => At(v.rows[j], c) # 0) /\ r > 0}
      HBad(j) == \/ \E c \in HCols(j) : c \in v.rules[j + 1] /\ ~HObs(j, c)
                 \/ \E c \in 1..20 : c \notin v.rules[j + 1] /\ HObs(j, c)
      VObs(i, c) == (c > 0 /\ Cell(i, c).right) \/ (c < n(i) /\ Cell(i, c + 1).left)
      D(i) == IF Len(v.rows[i]) # Len(o.rows[i]) THEN "cells of row " \o ToString(<<i, Len(v.rows[i]), Len(o.rows[i])>>)
              ELSE LET E(c) == IF v.rows[i][c].span # o.rows[i][c].span THEN "span of cell " \o ToString(<<i, c, v.rows[i][c].span, o.rows[i][c].span>>)
                               ELSE DiffC(v.rows[i][c].c, o.rows[i][c].c)
                   IN IF \A c \in DOMAIN v.rows[i] : E(c) = "" THEN "" ELSE E(CHOOSE c \in DOMAIN v.rows[i] : E(c) # "")
  IN IF r # Len(o.rows) THEN "rows: " \o ToString(<<r, Len(o.rows)>>)
     ELSE IF \E i \in 1..r : D(i) # "" THEN D(CHOOSE i \in 1..r : D(i) # "")
     ELSE IF Cuts(v) THEN ""
     ELSE IF \E j \in 0..r : HBad(j)
          THEN "horizontal rules after row " \o ToString(LET j == CHOOSE j \in 0..r : HBad(j) IN
                    <<j, "expected", v.rules[j + 1] \cap HCols(j), "got", {c \in HCols(j) : HObs(j, c)}>>)
     ELSE IF \E i \in 1..r : \E c \in Edges(v.rows[i]) : VObs(i, c) # Vertical(v, v.rows[i], c)
          THEN "vertical rules of row " \o ToString(LET i == CHOOSE i \in 1..r : \E c \in Edges(v.rows[i]) : VObs(i, c) # Vertical(v, v.rows[i], c) IN
                    <<i, "expected", {c \in Edges(v.rows[i]) : Vertical(v, v.rows[i], c)}, "got", {c \in Edges(v.rows[i]) : VObs(i, c)}>>)
     ELSE ""
Diff(v, o) ==
  IF v.k # o.k THEN "expected " \o v.k \o ", got " \o o.k
  ELSE IF v.k = "w" THEN (IF v.w # o.w THEN "word " \o v.w \o ", got " \o o.w ELSE IF ~(v.f \subseteq SetOf(o.f)) \/ ~(SetOf(o.f) \subseteq v.f \cup v.m) THEN "format of " \o v.w \o ToString(o.f) ELSE "")
  ELSE IF v.k = "l" THEN DiffList(v, o) ELSE DiffTable(v, o)
DiffC(v, o) ==
  LET m == IF Len(v) < Len(o) THEN Len(v) ELSE Len(o)
      bad == {i \in 1..m : Diff(v[i], o[i]) # ""}
  IN IF bad # {} THEN Diff(v[CHOOSE i \in bad : \A j \in bad : i <= j], o[CHOOSE i \in bad : \A j \in bad : i <= j])
     ELSE IF Len(v) # Len(o) THEN "content of length " \o ToString(<<Len(v), Len(o)>>) ELSE ""
=============================================================================
