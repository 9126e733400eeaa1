---------------------------- MODULE MiniTeXTrace ----------------------------
(* trace: [toks: program, out: visible characters, depth: open frames after  *)
(* the run, ctr: list of <<name, value>>, exc: "" or what was raised]        *)
EXTENDS MiniTeX, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, S, n, done
vars == <<tid, S, n, done>>
T == Traces[tid]
Limit == 500
Big(X) == Len(X.toks) > 700 \/ Len(X.out) > 400
Init == \E i \in 1..Len(Traces) : tid = i /\ S = Start(Traces[i].toks) /\ n = 0 /\ done = FALSE
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
Run == /\ ~done /\ ~Finished(S) /\ n < Limit /\ ~Big(S)
       /\ S' = Step(S) /\ n' = n + 1 /\ UNCHANGED <<tid, done>>
End == /\ ~done /\ (Finished(S) \/ n >= Limit \/ Big(S))
       /\ CASE S.err -> Verdict("skip", <<"not in the language after", Len(S.out), "characters">>)
            [] n >= Limit \/ Big(S) -> Verdict("skip", <<"too long">>)
            [] ~Balanced(S) -> Verdict("skip", <<"unbalanced">>)
            [] T.exc # "" -> Verdict("reject", <<"raised", T.exc, "expected", Concat(S.out)>>)
            [] T.out # S.out -> Verdict("reject", <<"text", Concat(T.out), "expected", Concat(S.out)>>)
            [] T.depth # 0 -> Verdict("reject", <<"context stack left at depth", T.depth>>)
            [] {T.ctr[i][1] : i \in DOMAIN T.ctr} # DOMAIN S.ctr \/ \E i \in DOMAIN T.ctr : T.ctr[i][2] # S.ctr[T.ctr[i][1]]
                 -> Verdict("reject", <<"counters", T.ctr, "expected", S.ctr>>)
            [] OTHER -> Verdict("ok", n)
       /\ done' = TRUE /\ UNCHANGED <<tid, S, n>>
Next == Run \/ End
Spec == Init /\ [][Next]_vars
\* local changes only ever touch the innermost frame, and frame 1 is never popped
Confined == [][ (S'.toks # <<>> /\ ~S'.err) =>
   /\ Len(S'.F) >= 1
   /\ \A i \in 2..(Len(S.F) - 1) : i < Len(S'.F) =>
        \A x \in DOMAIN S'.F[i].m : x \in DOMAIN S.F[i].m /\ S'.F[i].m[x] = S.F[i].m[x] ]_vars
=============================================================================
