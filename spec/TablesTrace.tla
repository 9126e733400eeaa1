---------------------------- MODULE TablesTrace ----------------------------
(* Documents built by the implementation: [toks, tree].  The machine reads   *)
(* the tokens one by one; its tree must be the one that was built.            *)
EXTENDS Tables, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, st, l, done
vars == <<tid, st, l, done>>
Toks == Traces[tid].toks
Verdict(v, why) == PrintT(<<"V", tid, v, why>>) /\ done' = TRUE /\ UNCHANGED <<st, l>>
Init == \E i \in 1..Len(Traces) : tid = i /\ st = Boot /\ l = 1 /\ done = FALSE
Next == ~done /\ UNCHANGED tid
  /\ IF l > Len(Toks)
     THEN IF ~Complete(st) THEN Verdict("reject", "the input is not complete")
          ELSE LET d == TLCEval(DiffC(st[1].c, Traces[tid].tree)) IN IF d = "" THEN Verdict("ok", "") ELSE Verdict("reject", d)
     ELSE IF ~CanStep(st, Toks[l]) THEN Verdict("skip", ToString(l))
     ELSE st' = Step(st, Toks[l]) /\ l' = l + 1 /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
