---------------------------- MODULE DigestTrace ----------------------------
(* Documents parsed by the implementation: [toks, nodes, words].              *)
EXTENDS Digest, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, st, l, done
vars == <<tid, st, l, done>>
Toks == Traces[tid].toks
Verdict(v, why) == PrintT(<<"V", tid, v, why>>) /\ done' = TRUE /\ UNCHANGED <<st, l>>
Init == \E i \in 1..Len(Traces) : tid = i /\ st = Boot /\ l = 1 /\ done = FALSE
Next == ~done /\ UNCHANGED tid
  /\ IF l > Len(Toks)
     THEN IF ~Complete(st) THEN Verdict("reject", "the input is not complete")
          ELSE LET d == TLCEval(Diff(st.out, Traces[tid].nodes, Traces[tid].words)) IN IF d = "" THEN Verdict("ok", "")
                   ELSE IF TLCEval(Diff(Known(st.out, Traces[tid].words), Traces[tid].nodes, Traces[tid].words)) = "" THEN Verdict("known", "substitution in cells of mathematics")
                   ELSE Verdict("reject", d)
     ELSE IF ~CanStep(st, Toks[l]) THEN Verdict("skip", ToString(l))
     ELSE st' = TLCEval(Step(st, Toks[l])) /\ l' = l + 1 /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
