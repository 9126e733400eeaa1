------------------------------- MODULE Index -------------------------------
(* The index of a document.                                                  *)
(*                                                                           *)
(* An \index entry is a sequence of atoms: the four special characters       *)
(*   !  next level      @  the sort key ends here, the displayed key follows *)
(*   |  the rest is the format of the page reference                         *)
(*   "  the next atom is an ordinary one                                     *)
(* and ordinary atoms (characters, accented letters, commands).  env gives   *)
(*   env.text[a]   what atom a contributes to a sort key                     *)
(*   env.shown[a]  what atom a shows in a displayed key                      *)
(*   env.rank[s]   place of the sort key s in the collation order            *)
(*   env.head[a]   heading of the entries whose sort key starts with atom a  *)
(* A path is a sequence of levels [s, d]: sort key and displayed key.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE CatText(_, _), CatShown(_, _)
CatText(env, q) == IF q = <<>> THEN "" ELSE env.text[Head(q)] \o CatText(env, Tail(q))
CatShown(env, q) == IF q = <<>> THEN "" ELSE env.shown[Head(q)] \o CatShown(env, Tail(q))

(* ---- reading one entry ---------------------------------------------------- *)
Level(env, m) == LET s == IF m.at THEN m.sort ELSE m.cur
                 IN [s |-> CatText(env, s), d |-> CatShown(env, m.cur), i |-> IF s = <<>> THEN "" ELSE Head(s)]
Read0 == [path |-> <<>>, cur |-> <<>>, sort |-> <<>>, at |-> FALSE, fmt |-> <<>>, infmt |-> FALSE, quote |-> FALSE]
ReadAtom(env, m, a) ==
  LET put == IF m.infmt THEN [m EXCEPT !.fmt = Append(@, a), !.quote = FALSE] ELSE [m EXCEPT !.cur = Append(@, a), !.quote = FALSE]
      close == [m EXCEPT !.path = Append(@, Level(env, m)), !.cur = <<>>, !.sort = <<>>, !.at = FALSE]
  IN IF m.quote THEN put
     ELSE IF a = "\"" THEN [m EXCEPT !.quote = TRUE]
     ELSE IF m.infmt THEN put
     ELSE IF a = "!" THEN close
     ELSE IF a = "@" THEN [m EXCEPT !.sort = m.cur, !.at = TRUE, !.cur = <<>>]
     ELSE IF a = "|" THEN [close EXCEPT !.infmt = TRUE]
     ELSE put
RECURSIVE ReadAll(_, _, _)
ReadAll(env, m, q) == IF q = <<>> THEN (IF m.infmt THEN m ELSE [m EXCEPT !.path = Append(@, Level(env, m))])
                      ELSE ReadAll(env, ReadAtom(env, m, Head(q)), Tail(q))
(* the format is a command name (a run of letters), with arguments *)
LetterAtoms == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
                "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
RECURSIVE Name(_)
Name(q) == IF q = <<>> \/ Head(q) \notin LetterAtoms THEN "" ELSE Head(q) \o Name(Tail(q))
Parse(env, raw) ==
  LET m == ReadAll(env, Read0, raw)
      n == Name(m.fmt)
  IN [path |-> m.path, fmt |-> m.fmt, kind |-> IF n \in {"see", "seealso"} THEN n ELSE "page"]

(* the identity of a level: what it sorts as and what it shows *)
Key(l) == [s |-> l.s, d |-> l.d]
Path(p) == [i \in 1..Len(p) |-> Key(p[i])]

(* ---- the index of a sequence of parsed entries, declaratively -------------- *)
Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..Len(p)}
Lines(es) == UNION {Prefixes(Path(es[i].path)) : i \in 1..Len(es)}
RECURSIVE PagesFrom(_, _, _)
PagesFrom(es, p, i) == IF i > Len(es) THEN <<>>
                       ELSE (IF Path(es[i].path) = p THEN << <<i, es[i].kind>> >> ELSE <<>>) \o PagesFrom(es, p, i + 1)
Pages(es, p) == PagesFrom(es, p, 1)

(* ---- judging an index --------------------------------------------------------
   A line of the index is [s, d, pages, kids]                                   *)
RECURSIVE Flat(_, _)
Flat(t, pre) == IF t = <<>> THEN <<>>
                ELSE LET x == Head(t)
                         p == Append(pre, Key(x))
                     IN << [p |-> p, pages |-> x.pages] >> \o Flat(x.kids, p) \o Flat(Tail(t), pre)
RECURSIVE Sorted(_, _)
Sorted(env, t) == /\ \A i \in 1..(Len(t) - 1) : env.rank[t[i].s] <= env.rank[t[i + 1].s]
                  /\ \A i \in 1..Len(t) : Sorted(env, t[i].kids)
WhyTree(env, es, t) ==
  LET f == Flat(t, <<>>)
      ps == {f[i].p : i \in 1..Len(f)}
      want == Lines(es)
  IN IF want \ ps /= {} THEN <<"no line for", CHOOSE p \in want \ ps : TRUE>>
     ELSE IF ps \ want /= {} THEN <<"line for a path no entry names", CHOOSE p \in ps \ want : TRUE>>
     ELSE IF Cardinality(ps) /= Len(f) THEN <<"more than one line for", CHOOSE p \in ps : Cardinality({i \in 1..Len(f) : f[i].p = p}) > 1>>
     ELSE IF \E i \in 1..Len(f) : f[i].pages /= Pages(es, f[i].p)
          THEN LET i == CHOOSE i \in 1..Len(f) : f[i].pages /= Pages(es, f[i].p)
               IN <<"pages of", f[i].p, "expected", Pages(es, f[i].p), "got", f[i].pages>>
     ELSE IF ~Sorted(env, t) THEN <<"not in collation order", [i \in 1..Len(t) |-> t[i].s]>>
     ELSE <<>>

(* Groups: [title, cols], cols a sequence of sequences of numbers of top-level
   lines.                                                                       *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Letters == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
(* the heading of a top-level line is that of its sort key's initial *)
HeadOf(env, es, k) == LET i == CHOOSE i \in 1..Len(es) : Key(es[i].path[1]) = k IN env.head[es[i].path[1].i]
WhyGroups(env, es, t, gs, n) ==
  LET flat == [g \in 1..Len(gs) |-> Cat(gs[g].cols)]
  IN IF Cat(flat) /= [i \in 1..Len(t) |-> i] THEN <<"groups and columns do not list the entries in order", [g \in 1..Len(gs) |-> gs[g].cols]>>
     ELSE IF \E g \in 1..Len(gs) : flat[g] = <<>> THEN <<"empty group">>
     ELSE IF \E g \in 1..Len(gs) : Len(gs[g].cols) /= n THEN <<"number of columns", [g \in 1..Len(gs) |-> Len(gs[g].cols)]>>
     ELSE IF \E g \in 1..Len(gs) : \E i \in 1..Len(flat[g]) : HeadOf(env, es, Key(t[flat[g][i]])) /= gs[g].title
          THEN LET g == CHOOSE g \in 1..Len(gs) : \E i \in 1..Len(flat[g]) : HeadOf(env, es, Key(t[flat[g][i]])) /= gs[g].title
               IN <<"heading", gs[g].title, "over", [i \in 1..Len(flat[g]) |-> t[flat[g][i]].s]>>
     ELSE IF \E g, h \in 1..Len(gs) : g < h /\ gs[g].title = gs[h].title /\ (gs[g].title \in Letters \/ h = g + 1)
          THEN <<"two groups with one heading", [g \in 1..Len(gs) |-> gs[g].title]>>
     ELSE <<>>

(* ---- building an index: sort by a total order, merge common prefixes -------- *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) < Head(b) THEN TRUE ELSE IF Head(b) < Head(a) THEN FALSE ELSE LexLess(Tail(a), Tail(b))
(* env.order[l]: <<collation rank, raw sort key, displayed key>> as numbers; weak = only the rank *)
RECURSIVE SortKey(_, _, _)
SortKey(env, p, weak) == IF p = <<>> THEN <<>>
                         ELSE (IF weak THEN <<env.rank[p[1].s]>> ELSE <<env.rank[p[1].s], env.tie[p[1].s], env.tie[p[1].d]>>) \o SortKey(env, Tail(p), weak)
RECURSIVE InsertInto(_, _, _, _, _)
InsertInto(env, q, x, es, weak) ==
  IF q = <<>> THEN <<x>>
  ELSE IF LexLess(SortKey(env, Path(es[x].path), weak), SortKey(env, Path(es[q[1]].path), weak)) THEN <<x>> \o q
  ELSE <<q[1]>> \o InsertInto(env, Tail(q), x, es, weak)
RECURSIVE Order(_, _, _, _)
Order(env, es, n, weak) == IF n = 0 THEN <<>> ELSE InsertInto(env, Order(env, es, n - 1, weak), n, es, weak)

Line(l, pages, kids) == [s |-> l.s, d |-> l.d, pages |-> pages, kids |-> kids]
(* append an occurrence along the rightmost path of the tree *)
RECURSIVE Hang(_, _, _, _)
Hang(t, p, occ, from) ==   \* from: number of levels that are new
  LET leaf == Len(p) = 1
      new == Line(p[1], IF leaf THEN <<occ>> ELSE <<>>, IF leaf THEN <<>> ELSE Hang(<<>>, Tail(p), occ, 0))
      n == Len(t)
  IN IF from = 0 THEN Append(t, new)
     ELSE IF leaf THEN [t EXCEPT ![n].pages = Append(@, occ)]
     ELSE [t EXCEPT ![n].kids = Hang(@, Tail(p), occ, from - 1)]
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF a[1] = b[1] THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
RECURSIVE Merge(_, _, _, _)
Merge(es, q, prev, t) ==
  IF q = <<>> THEN t
  ELSE LET p == Path(es[q[1]].path) IN Merge(es, Tail(q), p, Hang(t, p, <<q[1], es[q[1]].kind>>, Common(prev, p)))
Build(env, es, weak) == Merge(es, Order(env, es, Len(es), weak), <<>>, <<>>)

(* ---- splitting a group into columns, from the last entry up ------------------ *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE SplitFrom(_, _, _, _, _, _)
SplitFrom(tot, i, cols, lim, current, out) ==   \* out: columns from the last, each from the last
  IF i = 0 THEN out
  ELSE LET num == tot[i]
           c == current + num
           n == Len(out)
       IN IF n >= cols THEN SplitFrom(tot, i - 1, cols, lim, c, [out EXCEPT ![n] = <<i>> \o @])
          ELSE IF c > lim THEN SplitFrom(tot, i - 1, cols, lim, num, Append(out, <<i>>))
          ELSE IF c = lim THEN SplitFrom(tot, i - 1, cols, lim, 0, Append([out EXCEPT ![n] = <<i>> \o @], <<>>))
          ELSE SplitFrom(tot, i - 1, cols, lim, c, [out EXCEPT ![n] = <<i>> \o @])
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
NotEmpty(q) == q /= <<>>
Columns(tot, cols) == LET o == SelectSeq(Reverse(SplitFrom(tot, Len(tot), cols, Sum(tot) \div cols, 0, << <<>> >>)), NotEmpty)
                      IN o \o [i \in 1..(cols - Len(o)) |-> <<>>]
=============================================================================
