------------------------------- MODULE MC_Links ------------------------------
(* Every document up to MaxLen pieces, every split level, contents depth and  *)
(* filter: what the links have to be can be had.  A target is in a file that  *)
(* exists and is found there, different objects have different addresses, the *)
(* contents reach every file, so does the chain of next links, and the way up *)
(* ends at the start page.                                                    *)
EXTENDS Links, SequencesExt, Json, IOUtils
CONSTANTS MaxLen, OutLen
VARIABLE ps                              \* pieces
L(s) == [k |-> "lit", s |-> s]
Unit0 == [k |-> "unit", lev |-> -1000, vars |-> << <<"name", "document">> >>, head |-> <<>>, toc |-> <<>>, index |-> FALSE]
Labels == <<"l1", "l2", "l3", "l4", "l5", "l6">>
Labelled(p) == p[1] \in {"unit", "thm"}
Rank(qs, i) == Cardinality({j \in 1..i : Labelled(qs[j])})
W(i) == [k |-> "w", s |-> "W" \o ToString(i)]
Expand(qs, i) ==
  LET p == qs[i] IN
  CASE p[1] = "unit" -> << [k |-> "unit", lev |-> p[2], vars |-> << <<"title", "t">>, <<"name", "section">> >>, head |-> <<"H" \o ToString(i)>>, toc |-> <<>>, index |-> FALSE],
                           [k |-> "sec", c |-> IF p[2] = 1 THEN "section" ELSE "subsection", star |-> FALSE, o |-> i], [k |-> "label", l |-> Labels[Rank(qs, i)]] >>
    [] p[1] = "thm" -> << [k |-> "thm", n |-> "thm", o |-> i], [k |-> "label", l |-> Labels[Rank(qs, i)]], W(i), [k |-> "close"] >>
    [] p[1] = "ref" -> << [k |-> "ref", n |-> i, l |-> Labels[p[2]], cmd |-> "ref"] >>
    [] p[1] = "fn" -> << [k |-> "fn", ws |-> <<"F" \o ToString(i)>>] >>
    [] p[1] = "idx" -> << [k |-> "idx", p |-> "P"] >>
    [] OTHER -> << W(i) >>
Events(qs) == <<Unit0, [k |-> "newtheorem", n |-> "thm", star |-> FALSE, shared |-> "", within |-> ""]>> \o FlattenSeq([i \in DOMAIN qs |-> Expand(qs, i)])
Pieces == {<<"w">>, <<"fn">>, <<"idx">>, <<"thm">>} \cup {<<"unit", l>> : l \in 1..2} \cup {<<"ref", n>> : n \in 1..2}
Init == ps = <<>>
Next == Len(ps) < MaxLen /\ \E p \in Pieces : ps' = Append(ps, p)
Spec == Init /\ [][Next]_ps
T(sp, depth, nf) == [static |-> << <<L("index")>> >>, wild |-> << <<L("p"), [k |-> "var", s |-> "num", w |-> -1]>> >>, conf |-> [ext |-> ".html", bad |-> ":", rep |-> "-"], jobname |-> "j",
                     split |-> sp, cls |-> "article", tocdepth |-> depth, tocmax |-> 0, nonfiles |-> nf, events |-> Events(ps)]
Splits == {-10, 1, 2}
RECURSIVE Chain(_, _)
Chain(d, k) == IF k > Len(d.names) THEN {} ELSE {k} \cup Chain(d, k + 1)
Resolved(d) == {i \in DOMAIN d.es : d.es[i].k = "ref" /\ N!Resolve(d.num, d.es[i].l) # 0}
Sound(d) ==
  LET objs == {i \in DOMAIN d.es : d.es[i].k \in {"sec", "thm"}}
      want(i) == ToObject(d, i) IN
  /\ \A i \in Resolved(d) : want(StartOf(d, N!Resolve(d.num, d.es[i].l))).file \in Range(d.names)
  /\ \A i \in objs : LET w == want(i) IN
        /\ ~w.frag => d.es[i].k = "sec" /\ OwnsFile(d, i - 1) /\ w.file = d.names[d.at[i]]
        /\ w.frag => \A x \in w.next : x # "" /\ \E j \in i - 1..Len(d.es) : d.at[j] = d.at[i] /\ IsMark(d.es[j]) /\ First(d.es[j]) = x
  /\ \A i, j \in objs : (i # j /\ ~want(i).frag /\ ~want(j).frag) => want(i).file # want(j).file
  \* every number is given once
  /\ \A i, j \in objs : (i # j /\ d.es[i].k = d.es[j].k) => d.num.num[d.es[i].o] # d.num.num[d.es[j].o]
Reaching(t, d) ==
  LET us == Range(Contents(d, t, 1))
      files == {d.at[j] : j \in us} \cup {1} IN
  /\ (\E m \in Subs(d, 1) : OwnsFile(d, m)) => \A k \in DOMAIN d.names : k \in files
  /\ \A j \in us : t.nonfiles \/ OwnsFile(d, j)
  /\ Len(Contents(d, t, 1)) = Cardinality(us)
  /\ (t.nonfiles /\ us # {}) => us = Units(d) \ {1}
  /\ \A j \in Units(d) \ {1} : Crumbs(d, j)[1] = 1 /\ \A m \in Range(Crumbs(d, j)) : d.es[m].lev < d.es[j].lev
  /\ \A j \in Units(d) \ {1} : OwnsFile(d, j) => OwnsFile(d, S!Around(d.es, j))
Right == \A sp \in Splits : LET d == TLCEval(Document(T(sp, 6, TRUE))) IN Sound(d) /\ Reaching(T(sp, 6, TRUE), d) /\ (LET u == T(sp, 6, FALSE) IN Reaching(u, d))
\* a contents of depth 1 has the topmost units only
Shallow == \A sp \in Splits : LET t == T(sp, 1, TRUE) d == TLCEval(Document(t)) IN Range(Contents(d, t, 1)) \subseteq Subs(d, 1)
ASSUME IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, [shapes |-> SetToSeq(UNION {[1..n -> Pieces] : n \in 1..OutLen})]) ELSE TRUE
=============================================================================
