---------------------------- MODULE MC_Histories ----------------------------
(* Every history of up to MaxDocs documents of up to MaxActs actions: every   *)
(* document shows what it shows alone, and leaves the process as it was.      *)
EXTENDS Histories, SequencesExt, Json, IOUtils
CONSTANTS MaxDocs, MaxActs, MaxTotal, OutActs
VARIABLES ds
Actions == { <<"set", "tolerance", "7">>, <<"ask", "tolerance", "7">>, <<"def", "mya">>, <<"has", "mya">>, <<"pkg", "amsmath">>, <<"has", "eqref">>,
             <<"label", "k">>, <<"put", "k">>, <<"step">>, <<"show">>, <<"cls", "book">>, <<"form">>, <<"cat">>, <<"bang">>, <<"open", "math">>, <<"open", "list">> }
Init == ds = << <<>> >>
Total == FoldSeq(LAMBDA d, n : n + Len(d), 0, ds)
Next == \/ /\ Len(ds[Len(ds)]) < MaxActs /\ Total < MaxTotal
           /\ \E a \in Actions : ds' = [ds EXCEPT ![Len(ds)] = Append(@, a)]
        \/ /\ Len(ds) < MaxDocs /\ ds[Len(ds)] # <<>>
           /\ ds' = Append(ds, <<>>)
Spec == Init /\ [][Next]_ds
Alone == \A i \in DOMAIN ds : TLCEval(History(Boot, ds))[i].out = Meaning(ds[i])
Restored == LET h == TLCEval(History(Boot, ds)) IN \A i \in DOMAIN h : h[i].p = Boot
\* exported: pairs of documents, the first acts, the second looks
Firsts == UNION {[1..n -> {a \in Actions : a[1] \in {"set", "def", "pkg", "label", "step", "cat", "cls", "open"}}] : n \in 1..OutActs}
Seconds == UNION {[1..n -> {a \in Actions : a[1] # "open"}] : n \in 1..OutActs}
ASSUME IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, [first |-> SetToSeq(Firsts), second |-> SetToSeq(Seconds)]) ELSE TRUE
=============================================================================
