---------------------------- MODULE IfThenTrace ----------------------------
(* A processed ifthen program: [env, prog, obs] with the words of the        *)
(* document; the machine must write them one by one and then halt.           *)
EXTENDS IfThen, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, m, n, done
vars == <<tid, m, n, done>>
Tr == Traces[tid]
Obs == Tr.obs
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
Init == \E i \in 1..Len(Traces) : tid = i /\ m = Boot(Traces[i].env, Traces[i].prog) /\ n = 0 /\ done = FALSE
Limit == 4000
Next ==
  /\ ~done /\ UNCHANGED tid
  /\ IF Halted(m)
     THEN /\ done' = TRUE /\ UNCHANGED <<m, n>>
          /\ IF Len(m.out) = Len(Obs) THEN Verdict("ok", "") ELSE Verdict("reject", <<"extra words", SubSeq(Obs, Len(m.out) + 1, Len(Obs))>>)
     ELSE LET x == TLCEval(Exec(m))
              o == Len(x.out)
          IN IF n > Limit THEN Verdict("reject", <<"runaway", n>>) /\ done' = TRUE /\ UNCHANGED <<m, n>>
             ELSE IF o > Len(m.out) /\ (o > Len(Obs) \/ Obs[o] /= x.out[o])
             THEN /\ done' = TRUE /\ UNCHANGED <<m, n>>
                  /\ Verdict("reject", <<"word", o, "expected", x.out[o], "got", IF o > Len(Obs) THEN "<end>" ELSE Obs[o]>>)
             ELSE m' = x /\ n' = n + 1 /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
