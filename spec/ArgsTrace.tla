----------------------------- MODULE ArgsTrace -----------------------------
(* Invocations and numeric literals read by the implementation: each event    *)
(* is [sig, toks, obs |-> [b: bound values, r: what follows, lvl]].           *)
EXTENDS Args, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
Init == \E i \in 1..Len(Traces) : tid = i /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET w == TLCEval(Why(Traces[tid])) IN
           IF w = "ok" THEN Verdict("ok", "") ELSE IF w = "skip" THEN Verdict("skip", "") ELSE Verdict("reject", w)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
