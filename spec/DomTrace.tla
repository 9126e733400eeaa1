------------------------------ MODULE DomTrace ------------------------------
(* Recorded use of the document tree. A trace is [start |-> state, ev |->    *)
(* events]; an event is                                                      *)
(*  [k |-> "op", op, ok, ret, snap]   an operation, what it said, and what   *)
(*      every node looks like afterwards: snap[n] = [kids, parent, owner,    *)
(*      first, last, prev, next, text, att]                                  *)
(*  [k |-> "tags", p, t, x]   the nodes reported for tag t below p           *)
(*  [k |-> "all", p, x]       all children below p, in document order        *)
(*  [k |-> "pos", ns, x]      positions of ns among each other               *)
(*  [k |-> "same", a, b, x]   are a and b equal?                             *)
EXTENDS Dom, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, st, l, done
vars == <<tid, st, l, done>>
Tr == Traces[tid].ev
Ev == Tr[l]
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ done = FALSE /\ st = [Traces[i].start EXCEPT !.stale = {}]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)

\* what is wrong with node n ("" if nothing is)
Common(s, n, o) ==
    LET k == IF s.kind[n] = "text" THEN <<>> ELSE Kids(s, n)
    IN CASE o.kids # k -> "children"
         [] ~o.owner -> "owner"
         [] o.first # (IF k = <<>> THEN 0 ELSE k[1]) -> "firstChild"
         [] o.last # (IF k = <<>> THEN 0 ELSE k[Len(k)]) -> "lastChild"
         [] o.text # Text(s, n) -> "textContent"
         [] {<<o.att[i][1], o.att[i][2]>> : i \in DOMAIN o.att} # {<<s.att[n][i][1], s.att[n][i][2]>> : i \in DOMAIN s.att[n]} -> "attributes"
         [] OTHER -> ""
Links(s, p, snap) ==
    LET k == s.kids[p]
        par == {p} \cup (IF s.kind[p] = "frag" THEN {e \in DOMAIN s.self : s.self[e] = p /\ s.kind[e] # "dead"} ELSE {})
    IN {<<"parent", k[i], par>> : i \in {j \in DOMAIN k : snap[k[j]].parent \notin par}}
       \cup {<<"previousSibling", k[i], IF i = 1 THEN 0 ELSE k[i - 1]>> : i \in {j \in DOMAIN k : snap[k[j]].prev # (IF j = 1 THEN 0 ELSE k[j - 1])}}
       \cup {<<"nextSibling", k[i], IF i = Len(k) THEN 0 ELSE k[i + 1]>> : i \in {j \in DOMAIN k : snap[k[j]].next # (IF j = Len(k) THEN 0 ELSE k[j + 1])}}
       \cup {<<"parent", n, {p}>> : n \in {m \in Range(AttNodes(s, p)) : snap[m].parent # p}}
Bads(s, snap) ==
    IF Len(snap) # N(s) THEN {<<"number of nodes", Len(snap), N(s)>>}
    ELSE LET live == TLCEval(Live(s))
             held == TLCEval(UNION {Range(s.kids[p]) : p \in live})
             att == TLCEval(UNION {Range(AttNodes(s, p)) : p \in live})
         IN {<<Common(s, n, snap[n]), n, 0>> : n \in {m \in live : Common(s, m, snap[m]) # ""}}
            \cup UNION {Links(s, p, snap) : p \in live}
            \cup {<<"sibling of a node that has none", n, 0>> : n \in {m \in live \ held : snap[m].prev # 0 \/ snap[m].next # 0}}
            \cup {<<"parent of a detached node", n, 0>> : n \in {m \in live \ (held \cup att \cup s.stale) : snap[m].parent # 0 /\ s.kind[m] # "doc"}}
Why(res) ==
    CASE Ev.k = "op" ->
           IF ~Legal(st, Ev.op) THEN <<"illegal">>
           ELSE IF res.ok # Ev.ok THEN <<"result", IF res.ok THEN "should work" ELSE "should be refused">>
           ELSE IF res.ret # 0 /\ Ev.ret # res.ret THEN <<"returned", Ev.ret, "expected", res.ret>>
           ELSE LET b == TLCEval(Bads(res.st, Ev.snap))
                IN IF b = {} THEN <<>>
                   ELSE LET w == CHOOSE m \in b : TRUE
                        IN <<w[1], "of node", w[2], "expected", w[3], "is", IF w[2] \in DOMAIN Ev.snap THEN Ev.snap[w[2]] ELSE <<>>, "children", Kids(res.st, w[2])>>
      [] Ev.k = "tags" -> IF Ev.x = ByTag(st, Ev.p, Ev.t) THEN <<>> ELSE <<"getElementsByTagName", Ev.t, "below", Ev.p, Ev.x, "expected", ByTag(st, Ev.p, Ev.t)>>
      [] Ev.k = "all" -> IF Ev.x = AllKids(st, Ev.p) THEN <<>> ELSE <<"allChildNodes of", Ev.p, Ev.x, "expected", AllKids(st, Ev.p)>>
      [] Ev.k = "pos" ->
           LET free == TLCEval(Free(st))
               ns == TLCEval(Range(Ev.ns) \cap NoAlias(st))
               pos == Positions(st, ns)
               ok == {i \in DOMAIN Ev.ns : Ev.ns[i] \in ns}
               bad == TLCEval({<<i, j>> \in ok \X ok : Ev.x[i][j] # pos[Ev.ns[i]][Ev.ns[j]]})
           IN IF bad = {} THEN <<>>
              ELSE LET b == CHOOSE q \in bad : TRUE
                   IN <<"position of", Ev.ns[b[2]], "relative to", Ev.ns[b[1]], Ev.x[b[1]][b[2]], "expected", pos[Ev.ns[b[1]]][Ev.ns[b[2]]]>>
      [] Ev.k = "same" -> IF Ev.x = Same(st, Ev.a, Ev.b) THEN <<>> ELSE <<"equality of", Ev.a, Ev.b, Ev.x>>
      [] Ev.k = "exc" -> <<"exception", Ev.what>>
      [] OTHER -> <<"unknown event">>
Step(r) == st' = (IF Ev.k = "op" THEN r.st ELSE st) /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
Accept == Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED <<tid, st, l>>
Reject(w) == /\ Verdict(IF w = <<"illegal">> THEN "illegal" ELSE "reject", <<"event", l, IF Ev.k = "op" THEN Ev.op ELSE <<>>, w>>)
             /\ done' = TRUE /\ UNCHANGED <<tid, st, l>>
Next == /\ ~done
        /\ IF l > Len(Tr) THEN Accept
           ELSE LET r == TLCEval(IF Ev.k = "op" THEN Apply(st, Ev.op) ELSE <<>>)
                    w == TLCEval(Why(r))
                IN IF w = <<>> THEN Step(r) ELSE Reject(w)
Spec == Init /\ [][Next]_vars
=============================================================================
