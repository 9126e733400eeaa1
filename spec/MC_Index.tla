----------------------------- MODULE MC_Index -----------------------------
(* Documents grow by one \index entry at a time.                             *)
EXTENDS Index, Json, IOUtils
CONSTANTS N, WEAK, COLS
(* "a" and "A" collate alike; "!" and "@" can be quoted *)
Atoms == {"a", "A", "b", "!", "@", "|", "\"", "s", "e"}
Env == [text |-> [a \in Atoms |-> a], shown |-> [a \in Atoms |-> a],
        rank |-> [s \in {"a", "A", "b", "!", "ab"} |-> CASE s = "!" -> 0 [] s \in {"a", "A"} -> 1 [] s = "ab" -> 2 [] OTHER -> 3],
        tie |-> [s \in {"a", "A", "b", "!", "ab"} |-> CASE s = "a" -> 1 [] s = "A" -> 2 [] s = "b" -> 3 [] s = "!" -> 4 [] OTHER -> 5],
        head |-> [a \in Atoms |-> CASE a \in {"a", "A"} -> "A" [] a = "b" -> "B" [] a = "_" -> "_ (Underscore)" [] OTHER -> "Symbols"]]
Levels == {[s |-> "a", d |-> "a"], [s |-> "A", d |-> "A"], [s |-> "a", d |-> "b"], [s |-> "!", d |-> "!"], [s |-> "b", d |-> "b"]}
Q(c) == IF c \in {"!", "@", "|", "\""} THEN <<"\"", c>> ELSE <<c>>
Spell(l) == IF l.s = l.d THEN Q(l.s) ELSE Q(l.s) \o <<"@">> \o Q(l.d)
Fmts == {<<>>, <<"|">>, <<"|", "s", "e", "e", "\"", "!">>, <<"|", "b", "!", "a">>}
Paths == {<<l>> : l \in Levels} \cup {<<l, k>> : l \in Levels, k \in {[s |-> "a", d |-> "a"], [s |-> "A", d |-> "A"], [s |-> "a", d |-> "b"]}}
RawOf(p, f) == (IF Len(p) = 1 THEN Spell(p[1]) ELSE Spell(p[1]) \o <<"!">> \o Spell(p[2])) \o f
Small == {[p |-> p, f |-> <<>>] : p \in Paths} \cup {[p |-> <<l>>, f |-> f] : l \in {[s |-> "a", d |-> "a"]}, f \in Fmts}
VARIABLES doc
Init == doc = <<>>
Next == Len(doc) < N /\ \E u \in Small : doc' = Append(doc, RawOf(u.p, u.f))
Spec == Init /\ [][Next]_doc
Entries == [i \in 1..Len(doc) |-> Parse(Env, doc[i])]
(* reading what was written *)
RoundTrip == \A u \in Small : LET e == Parse(Env, RawOf(u.p, u.f))
                              IN Path(e.path) = u.p /\ e.kind = (IF u.f = <<"|", "s", "e", "e", "\"", "!">> THEN "see" ELSE "page")
ASSUME RoundTrip
(* the construction gives an index that is accepted; without the tie-break it does not *)
BuildOK == LET t == Build(Env, Entries, WEAK) IN WhyTree(Env, Entries, t) = <<>>
(* every occurrence is on exactly one line *)
Once == LET f == Flat(Build(Env, Entries, FALSE), <<>>)
        IN \A i \in 1..Len(doc) : Cardinality({<<l, k>> \in (1..Len(f)) \X (1..Len(doc)) : k <= Len(f[l].pages) /\ f[l].pages[k][1] = i}) = 1
(* the column split of any group is an ordered partition *)
Totals == UNION {[1..n -> 1..3] : n \in 1..5}
SplitOK == \A c \in 1..COLS : \A t \in Totals : LET s == Columns(t, c) IN Len(s) = c /\ Cat(s) = [i \in 1..Len(t) |-> i]
ASSUME SplitOK
(* every proper tampering with an index is noticed *)
Tampered(t) == {[i \in 1..(Len(t) - 1) |-> t[i]], <<t[1]>> \o t, [t EXCEPT ![1].pages = <<>>], [t EXCEPT ![1].pages = Append(@, <<1, "page">>)]}
Noticed == doc /= <<>> => LET t == Build(Env, Entries, FALSE) IN \A x \in Tampered(t) : x = t \/ WhyTree(Env, Entries, x) /= <<>>
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, LET S == {RawOf(u.p, u.f) : u \in Small} IN [raws |-> S, docs |-> UNION {[1..n -> S] : n \in 1..2}])
=============================================================================
