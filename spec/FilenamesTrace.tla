--------------------------- MODULE FilenamesTrace ---------------------------
(* Recorded use of a Filenames object.  trace: [static, wild, conf, reserved,*)
(* init: pairs, ev]; event: [k |-> "bind", n, v] | [k |-> "name", n] |       *)
(* [k |-> "error"] | [k |-> "exc", n]                                        *)
EXTENDS Filenames, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, f, l, done
vars == <<tid, f, l, done>>
Pairs(ps) == [k \in {ps[j][1] : j \in DOMAIN ps} |-> ps[CHOOSE j \in DOMAIN ps : ps[j][1] = k][2]]
SetOf(s) == {s[i] : i \in DOMAIN s}
Init == \E i \in 1..Len(Traces) :
  /\ tid = i /\ l = 1 /\ done = FALSE
  /\ f = LET t == Traces[i] IN New(t.static, t.wild, t.conf, SetOf(t.reserved), Pairs(t.init))
Tr == Traces[tid].ev
Ev == Tr[l]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
DoBind == Ev.k = "bind" /\ f' = Bind(f, Ev.n, Ev.v)
DoReq == /\ Ev.k \in {"name", "error"}
         /\ LET r == Request(f) IN r[2] = Ev.k /\ r[3] = Ev.n /\ f' = r[1]
Step == ~done /\ l <= Len(Tr) /\ (DoBind \/ DoReq) /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
Accept == ~done /\ l > Len(Tr) /\ Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED <<tid, f, l>>
Reject == /\ ~done /\ l <= Len(Tr) /\ ~ENABLED Step
          /\ Verdict("reject", <<"event", l, Ev, "expected", LET r == Request(f) IN <<r[2], r[3]>>>>)
          /\ done' = TRUE /\ UNCHANGED <<tid, f, l>>
Next == Step \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
NeverShrinks == [][f.used \subseteq f'.used /\ f'.num >= f.num]_vars
=============================================================================
