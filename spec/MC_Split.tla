---- MODULE MC_Split ----
(* For every document up to MaxLen events, every split level and template:    *)
(* each unit at or above the level has a file of its own, each piece of text  *)
(* is exactly once in exactly the file of the nearest such unit around it, in *)
(* document order, notes apart; names differ and have no forbidden character. *)
EXTENDS Split, SequencesExt, Json, IOUtils
CONSTANTS MaxLen, OutLen
VARIABLE es
V(n) == [k |-> "var", s |-> n, w |-> -1]
VW(n, w) == [k |-> "var", s |-> n, w |-> w]
L(s) == [k |-> "lit", s |-> s]
Conf == [ext |-> ".html", bad |-> ":?", rep |-> "-"]
Templates == << [static |-> << <<L("index")>> >>, wild |-> << <<V("id")>>, <<L("sect"), VW("num", 4)>> >>],
                [static |-> <<>>, wild |-> << <<VW("title", 1), L("_"), V("name")>>, <<V("id")>>, <<L("f"), V("num")>> >>],
                [static |-> << <<L("a")>>, <<V("id")>>, <<L("p"), V("num")>> >>, wild |-> <<>>],
                [static |-> << <<L("one")>> >>, wild |-> <<>>] >>
Levels == {-1, 0, 1, 2}
UnitEv(lev, vs, n) == [k |-> "unit", lev |-> lev, vars |-> vs, head |-> <<"H" \o ToString(n)>>]
Doc == [k |-> "unit", lev |-> DocLevel, vars |-> << <<"name", "document">> >>, head |-> <<>>]
Init == es = <<Doc>>
N == Len(es)
Next == /\ N < MaxLen
        /\ \E e \in {[k |-> "w", s |-> "W" \o ToString(N)], [k |-> "f", s |-> "F" \o ToString(N)]}
                    \cup {UnitEv(l, v, N) : l \in Levels, v \in { << <<"title", "A b?c">>, <<"name", "section">> >>, << <<"id", "l:1">>, <<"title", "A x">>, <<"name", "section">> >> }} :
             es' = Append(es, e)
Spec == Init /\ [][Next]_es
Splits == {-10, -1, 0, 1, 6}
T(i, sp) == [static |-> Templates[i].static, wild |-> Templates[i].wild, conf |-> Conf, jobname |-> "job", split |-> sp, events |-> es]
Seqs(s) == [i \in 1..Cardinality(s) |-> CHOOSE x \in s : Rank(s, x) = i]
Right(t) ==
  LET fs == TLCEval(Files(t))
      lev == Level(t)
      us == FileUnits(es, lev) IN
  /\ Len(fs) = Cardinality(us)
  /\ \A j \in us :
       LET f == fs[Rank(us, j)]
           notes == Of(es, lev, j, "f")
           main == Of(es, lev, j, "w") \cup Of(es, lev, j, "unit")
           txt(i) == IF es[i].k = "w" THEN << <<"w", es[i].s>> >> ELSE [n \in DOMAIN es[i].head |-> <<"h", es[i].head[n]>>] IN
       /\ f.notes = [i \in 1..Cardinality(notes) |-> <<"f", es[Seqs(notes)[i]].s>>]
       /\ f.body = FlattenSeq([i \in 1..Cardinality(main) |-> txt(Seqs(main)[i])])
Named(t) == LET fs == TLCEval(Files(t)) IN
            /\ \A i, j \in DOMAIN fs : i # j => fs[i].name # fs[j].name
            /\ \A i \in DOMAIN fs : fs[i].name # "?" /\ (Chars(fs[i].name) \cap {":", "?"}) = {}
Places == \A sp \in Splits : Right(T(1, sp)) /\ Right(T(4, sp))
Names == \A i \in 1..3 : \A sp \in Splits : Named(T(i, sp))
(* exported: shapes of documents *)
Sh(e) == IF e.k = "unit" THEN <<"unit", e.lev, Len(e.vars) = 3>> ELSE <<e.k>>
Evs == {<<"w">>, <<"f">>} \cup {<<"unit", l, b>> : l \in {0, 1, 2}, b \in BOOLEAN}
ASSUME IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, [shapes |-> SetToSeq(UNION {[1..n -> Evs] : n \in 1..OutLen})]) ELSE TRUE
====
