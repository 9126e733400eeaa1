----------------------------- MODULE ConfigTrace -----------------------------
(* Recorded use of the configuration. trace: sequence of events             *)
(*  [k |-> "file", l |-> <<section, key, string>>...]                       *)
(*  [k |-> "cli", l |-> <<flag, args>>...]                                  *)
(*  [k |-> "set", i |-> option number, x |-> value]                         *)
(*  [k |-> "get", i |-> option number, x |-> value or [t |-> "err"]]        *)
(*  [k |-> "new"]  (another configuration: everything has its default)      *)
(*  [k |-> "table", x |-> <<section, key>>...]  the options there are       *)
EXTENDS Config, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, cfg, l, done
vars == <<tid, cfg, l, done>>
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ done = FALSE /\ cfg = Default
Tr == Traces[tid]
Ev == Tr[l]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
SetOf(s) == {s[i] : i \in DOMAIN s}
Val(x) == IF x.t = "d" THEN SetOf(x.v) ELSE x.v
Same(want, got) == IF want.t # got.t THEN FALSE ELSE IF want.t = "err" THEN TRUE ELSE want.v = Val(got)
Ok == CASE Ev.k = "get" -> Same(Read(cfg, Ev.i), Ev.x)
        [] Ev.k = "table" -> Ev.x = [i \in 1..N |-> <<Table[i].s, Table[i].k>>]
        [] Ev.k = "exc" -> FALSE
        [] OTHER -> TRUE
After == CASE Ev.k = "file" -> File(cfg, Ev.l)
           [] Ev.k = "cli" -> CmdLine(cfg, Ev.l)
           [] Ev.k = "set" -> [cfg EXCEPT ![Ev.i] = Val(Ev.x)]
           [] Ev.k = "new" -> Default
           [] OTHER -> cfg
Step == ~done /\ l <= Len(Tr) /\ Ok /\ cfg' = After /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
Accept == ~done /\ l > Len(Tr) /\ Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED <<tid, cfg, l>>
Reject == /\ ~done /\ l <= Len(Tr) /\ ~Ok
          /\ Verdict("reject", <<"event", l, Ev, "expected", IF Ev.k = "get" THEN <<Table[Ev.i].s, Table[Ev.i].k, Read(cfg, Ev.i)>> ELSE <<>>>>)
          /\ done' = TRUE /\ UNCHANGED <<tid, cfg, l>>
Next == Step \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
