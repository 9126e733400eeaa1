--------------------------- MODULE HistoriesTrace ---------------------------
(* A history: for every document its actions (none for documents that are     *)
(* only compared), what it showed, a digest of its tree and of its files, in  *)
(* the history and when it is the only document of an interpreter, and what   *)
(* of the interpreter-wide state was different after it.                      *)
EXTENDS Histories, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
vars == <<tid, done>>
First(s) == CHOOSE i \in s : \A j \in s : i <= j
Why(t, i) ==
  LET d == t.docs[i] IN
  IF d.got.exc # d.fresh.exc THEN <<"error", d.got.exc, "alone", d.fresh.exc>>
  ELSE IF d.got.exc # "" THEN <<"">>     \* the document is refused, alike
  ELSE IF d.acts # <<>> /\ d.fresh.out # Meaning(d.acts) THEN <<"alone shows", d.fresh.out, "expected", Meaning(d.acts)>>
  ELSE IF d.acts # <<>> /\ d.got.out # Meaning(d.acts) THEN <<"shows", d.got.out, "expected", Meaning(d.acts)>>
  ELSE IF d.got.tree # d.fresh.tree THEN <<"tree differs", d.diff>>
  ELSE IF d.got.files # d.fresh.files THEN <<"files differ", d.diff>>
  ELSE IF d.got.state # <<>> THEN <<"state", d.got.state>>
  ELSE <<"">>
Verdict(t) ==
  IF t.exc # "" THEN <<"reject", t.exc>>
  ELSE LET bad == {i \in DOMAIN t.docs : Why(t, i) # <<"">>} IN
       IF bad # {} THEN <<"reject", <<"document", First(bad)>> \o Why(t, First(bad))>>
       \* the same input twice
       ELSE IF \E i, j \in DOMAIN t.docs : t.docs[i].src = t.docs[j].src /\ t.docs[i].got.tree # t.docs[j].got.tree THEN <<"reject", "the same input, different results">>
       ELSE <<"ok", "">>
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ LET v == TLCEval(Verdict(Traces[tid])) IN PrintT(<<"V", tid, v[1], v[2]>>) /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
