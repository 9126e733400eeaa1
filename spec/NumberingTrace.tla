-------------------------- MODULE NumberingTrace ---------------------------
(* A processed document: [cls, depth, events, end]; every event carries what *)
(* the code made of it.                                                      *)
EXTENDS Numbering, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, last, done
vars == <<tid, l, st, last, done>>
Tr == Traces[tid]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)
\* \setcounter{a}{\value{b}}
Given(s, e) == IF e.k = "setto" THEN [s EXCEPT !.val[e.n] = s.val[e.v]] ELSE Do(s, e)
RECURSIVE RunAll(_, _)
RunAll(s, es) == IF es = <<>> THEN s ELSE RunAll(Given(s, es[1]), Tail(es))
Init == \E i \in 1..Len(Traces) :
  /\ tid = i /\ l = 1 /\ done = FALSE
  /\ st = Start(Traces[i].cls, Traces[i].depth)
  \* the whole document decides where labels are
  /\ last = TLCEval(RunAll(Start(Traces[i].cls, Traces[i].depth), Traces[i].events))
Objects == {"sec", "caption", "eqn", "row", "starred", "thm", "item"}
CiteText(s, e, i) == (IF i = 1 THEN "" ELSE ", ") \o s.cites[e.ls[i]].num
RECURSIVE Join(_, _, _)
Join(s, e, i) == IF i > Len(e.ls) THEN "" ELSE CiteText(s, e, i) \o Join(s, e, i + 1)
Why(s, e) ==
  CASE e.k \in Objects -> IF e.num = <<last.num[e.o]>> THEN <<>> ELSE <<"object", e.k, "has number", e.num, "instead of", last.num[e.o]>>
    [] e.k = "ref" ->
         (IF e.to /= Resolve(last, e.l) THEN <<"ref", e.l, "resolves to", e.to, "instead of", Resolve(last, e.l)>>
          ELSE IF e.num /= <<RefNumber(last, e.l)>> THEN <<"ref", e.l, "prints", e.num, "instead of", RefNumber(last, e.l)>> ELSE <<>>)
    [] e.k = "label" ->
         (IF e.to /= Resolve(last, e.l) THEN <<"label", e.l, "attached to", e.to, "instead of", Resolve(last, e.l)>>
          ELSE IF e.to /= NoObj /\ ~(e.id \in DOMAIN last.lab /\ last.lab[e.id] = e.to) THEN <<"label", e.l, "object has the identifier", e.id>> ELSE <<>>)
    [] e.k = "print" -> LET x == IF e.f = "the" THEN Printed(s, e.n) ELSE Show(s.val[e.n], e.f)
                        IN IF e.got = <<x>> THEN <<>> ELSE <<"printed", e.f, e.n, e.got, "instead of", x>>
    [] e.k = "cite" -> IF e.to /= [i \in DOMAIN e.ls |-> last.cites[e.ls[i]].o] THEN <<"cite", e.ls, "resolves to", e.to>>
                       ELSE IF e.text /= "[" \o Join(last, e, 1) \o "]" THEN <<"cite prints", e.text>> ELSE <<>>
    [] e.k = "exc" -> <<"exception", e.what>>
    [] OTHER -> <<>>
AtEnd(s) == IF "part" \in DOMAIN Tr THEN <<>> ELSE LET bad == {c \in DOMAIN s.val : c \notin DOMAIN Tr.end \/ Tr.end[c] /= s.val[c]}
            IN IF bad = {} THEN <<>> ELSE LET c == CHOOSE c \in bad : TRUE IN <<"counter", c, "is not", s.val[c]>>
Next ==
  /\ ~done /\ UNCHANGED <<tid, last>>
  /\ IF l > Len(Tr.events)
     THEN LET w == TLCEval(AtEnd(st))
          IN (IF w = <<>> THEN Verdict("ok", "") ELSE Verdict("reject", w)) /\ done' = TRUE /\ UNCHANGED <<l, st>>
     ELSE LET s == TLCEval(Given(st, Tr.events[l]))
              w == TLCEval(Why(s, Tr.events[l]))
          IN IF w = <<>> THEN l' = l + 1 /\ st' = s /\ UNCHANGED done
             ELSE Verdict("reject", <<"event", l>> \o w) /\ done' = TRUE /\ UNCHANGED <<l, st>>
Spec == Init /\ [][Next]_vars
=============================================================================
