---- MODULE SplitTrace ----
(* A rendered document: its events, the configuration, and the files that     *)
(* were written, each with the marked pieces of text found in it.             *)
EXTENDS Split, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
vars == <<tid, done>>
NameSet(fs) == {fs[i].name : i \in DOMAIN fs}
Verdict(t) ==
  IF t.exc # "" THEN <<"reject", t.exc>>
  ELSE LET want == TLCEval(Files(t))
           got == t.files
           missing == NameSet(want) \ NameSet(got)
           extra == NameSet(got) \ NameSet(want) IN
       IF "?" \in NameSet(want) THEN <<"skip", "no name left">>
       ELSE IF missing # {} \/ extra # {} THEN <<"reject", <<"files", "missing", missing, "extra", extra>> >>
       ELSE IF Cardinality(NameSet(want)) # Len(want) \/ Len(got) # Len(want) THEN <<"reject", <<"two units in one file", NameSet(want)>> >>
       ELSE IF t.issued # [i \in DOMAIN want |-> want[i].name] THEN <<"reject", <<"order of names", t.issued>> >>
       ELSE LET bad == {i \in DOMAIN want : LET g == got[CHOOSE j \in DOMAIN got : got[j].name = want[i].name] IN g.seq # want[i].body \o want[i].notes}
            IN IF bad = {} THEN <<"ok", "">>
               ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                        w == want[i].body \o want[i].notes
                        g == got[CHOOSE j \in DOMAIN got : got[j].name = want[i].name].seq
                        n == CHOOSE n \in 1..(Len(w) + Len(g)) : /\ \A m \in 1..n - 1 : m \in DOMAIN w /\ m \in DOMAIN g /\ w[m] = g[m]
                                                                 /\ ~(n \in DOMAIN w /\ n \in DOMAIN g /\ w[n] = g[n])
                    IN <<"reject", <<"text", want[i].name, n, "expected", IF n \in DOMAIN w THEN w[n] ELSE "end", "got", IF n \in DOMAIN g THEN g[n] ELSE "end">> >>
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ LET v == TLCEval(Verdict(Traces[tid])) IN PrintT(<<"V", tid, v[1], v[2]>>) /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_vars
====
