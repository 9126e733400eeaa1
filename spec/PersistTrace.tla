---------------------------- MODULE PersistTrace ----------------------------
(* Recorded uses of label files: a sequence of events                        *)
(*   save f r labels | restore f r got | damage f | gone f | foreign f       *)
(* where labels and got list <<label, number, title, target>>.  Any other    *)
(* event is a failure of the program.                                        *)
EXTENDS Persist, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, fs, l, done
vars == <<tid, fs, l, done>>
Tr == Traces[tid]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
SetOf(s) == {s[i] : i \in DOMAIN s}
Init == \E i \in 1..Len(Traces) : tid = i /\ fs = <<>> /\ l = 1 /\ done = FALSE
File(f) == IF f \in DOMAIN fs THEN fs[f] ELSE NoFile
Why(e) == IF e.k \notin {"save", "restore", "damage", "gone", "foreign"} THEN <<"failed", e>>
          ELSE IF e.k = "restore" /\ ~Allowed(File(e.f), e.r, SetOf(e.got))
               THEN <<"restored", e, "saved", IF e.r \in DOMAIN File(e.f).data THEN File(e.f).data[e.r] ELSE {}, "intact", e.r \in File(e.f).intact>>
          ELSE <<>>
After(e) == LET f == File(e.f)
            IN CASE e.k = "save" -> Save(f, e.r, SetOf(e.labels))
                 [] e.k = "damage" -> Damage(f)
                 [] e.k = "gone" -> Gone(f)
                 [] e.k = "foreign" -> Foreign(f)
                 [] OTHER -> f
Next ==
  /\ ~done /\ UNCHANGED tid
  /\ IF l > Len(Tr) THEN Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED <<fs, l>>
     ELSE LET e == Tr[l] w == TLCEval(Why(e))
          IN IF w /= <<>> THEN Verdict("reject", <<"event", l, w>>) /\ done' = TRUE /\ UNCHANGED <<fs, l>>
             ELSE fs' = (e.f :> After(e)) @@ fs /\ l' = l + 1 /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
