----------------------------- MODULE MC_IfThen -----------------------------
(* Every test expression up to MaxLen tokens, built token by token while the *)
(* machine reads it: the machine's value is the one the expression denotes.  *)
EXTENDS IfThen, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, OutLen
VARIABLES ts, m
Alphabet == {[k |-> "("], [k |-> ")"], [k |-> "and"], [k |-> "or"], [k |-> "not"], V(TRUE), V(FALSE)}
\* tokens still needed to complete the expression
Need(x) == (Len(x.stack) - 1) + (IF x.want THEN 1 ELSE 0)
Init == ts = <<>> /\ m = StartTest
Next == \E t \in Alphabet :
  /\ Len(ts) + 1 + Need(Shift(m, t)) <= MaxLen
  /\ CanShift(m, t.k)
  /\ ts' = Append(ts, t) /\ m' = Shift(m, t)
Spec == Init /\ [][Next]_<<ts, m>>
Agrees == Complete(m) => TestValue(m) = Denote(ts)
\* \not of the whole, and De Morgan, for the complete expressions
NotLaw == (Complete(m) /\ Len(ts) + 3 <= MaxLen) =>
  TestValue(RunTest(StartTest, <<[k |-> "not"], [k |-> "("]>> \o ts \o <<[k |-> ")"]>>)) = ~TestValue(m)
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT,
  LET Grow(S) == UNION {{Append(s, t) : t \in {t \in Alphabet : LET x == RunTest(StartTest, s) IN CanShift(x, t.k)
                                                     /\ Len(s) + 1 + Need(Shift(x, t)) <= OutLen}} : s \in S}
      L[i \in 0..OutLen] == IF i = 0 THEN {<<>>} ELSE Grow(L[i - 1])
      All == UNION {L[i] : i \in 1..OutLen}
  IN SetToSeq({[i \in DOMAIN s |-> s[i].k] : s \in {s \in All : Complete(RunTest(StartTest, s)) /\ \A i \in DOMAIN s : s[i].k = "v" => s[i].b}}))
=============================================================================
