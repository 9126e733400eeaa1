---------------------------- MODULE MC_Verbatim -----------------------------
(* Every short body after every opening: what the scanner takes is what lies  *)
(* before the first complete end marker, and behind it reading starts afresh. *)
EXTENDS Verbatim
CONSTANT MaxLen
VARIABLES st, op, body
vars == <<st, op, body>>
V == <<"v", "e", "r", "b", "a", "t", "i", "m">>
Pieces == {<<"\\", "e", "n", "d">>, <<"{">>, <<"}">>, V, <<"*">>, <<"\\">>, <<"%">>, <<"\n">>, <<"-">>, <<"|">>, <<"\\", "v", "e", "r", "b">>}
Openings == {[src |-> <<"x", "\\", "b", "e", "g", "i", "n", "{">> \o V \o <<"}">>, k |-> "verbatim", end |-> <<"\\", "e", "n", "d", "{">> \o V \o <<"}">>],
             [src |-> <<"\\", "b", "e", "g", "i", "n", "{">> \o V \o <<"*", "}">>, k |-> "verbatim*", end |-> <<"\\", "e", "n", "d", "{">> \o V \o <<"*", "}">>],
             [src |-> <<"\\", "v", "e", "r", "b", "|">>, k |-> "verb", end |-> <<"|">>], [src |-> <<"x", "\\", "v", "e", "r", "b", "*", "-">>, k |-> "verb", end |-> <<"-">>],
             [src |-> <<"\\", "v", "e", "r", "b", "{">>, k |-> "verb", end |-> <<"}">>], [src |-> <<"\\", "v", "e", "r", "b", "%">>, k |-> "verb", end |-> <<"%">>],
             [src |-> <<"\\", "v", "e", "r", "b", "\\">>, k |-> "verb", end |-> <<"\\">>]}
Init == \E o \in Openings : op = o /\ body = <<>> /\ st = Scan(o.src)
Next == \E p \in Pieces : Len(body) < MaxLen /\ body' = Append(body, p) /\ st' = FoldLeft(Step, st, p) /\ UNCHANGED op
Spec == Init /\ [][Next]_vars
Flat == FlattenSeq(body)
Ends == {i \in 0..(Len(Flat) - Len(op.end)) : SubSeq(Flat, i + 1, i + Len(op.end)) = op.end}
Words == IF op.src[1] = "x" THEN <<<<"w", <<"x">>>>>> ELSE <<>>
Content == IF Ends = {} THEN st.m \in {"env", "verb"} /\ st.buf = Flat /\ st.out = Words
           ELSE LET i == CHOOSE i \in Ends : \A j \in Ends : i <= j
                    rest == Scan(SubSeq(Flat, i + Len(op.end) + 1, Len(Flat))) IN
                /\ st.out = Words \o <<<<op.k, SubSeq(Flat, 1, i)>>>> \o rest.out
                /\ st.w = rest.w /\ st.m = rest.m /\ st.buf = rest.buf
=============================================================================
