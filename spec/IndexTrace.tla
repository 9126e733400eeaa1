---------------------------- MODULE IndexTrace ----------------------------
(* A processed document: [env, raws, cols, events]; an event is an index     *)
(* (tree, groups), as it is in the document ("dom") or on its page ("html"). *)
EXTENDS Index, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, done
vars == <<tid, l, done>>
Tr == Traces[tid]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ done = FALSE
Why(e) ==
  LET es == TLCEval([i \in 1..Len(Tr.raws) |-> Parse(Tr.env, Tr.raws[i])])
      w == TLCEval(IF e.k = "exc" THEN <<"exception", e.what>> ELSE WhyTree(Tr.env, es, e.tree))
  IN IF w /= <<>> THEN <<e.k>> \o w
     ELSE LET g == WhyGroups(Tr.env, es, e.tree, e.groups, Tr.cols) IN IF g = <<>> THEN <<>> ELSE <<e.k>> \o g
Next ==
  /\ ~done /\ UNCHANGED tid
  /\ IF l > Len(Tr.events) THEN Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED l
     ELSE LET w == TLCEval(Why(Tr.events[l]))
          IN IF w = <<>> THEN l' = l + 1 /\ UNCHANGED done
             ELSE Verdict("reject", <<"event", l>> \o w) /\ done' = TRUE /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
=============================================================================
