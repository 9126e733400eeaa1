------------------------------- MODULE MC_Dom -------------------------------
(* All sequences of operations over a small pool of nodes: the design (the   *)
(* list model keeps its tree, derived views are consistent with each other)  *)
(* and, with OUT set, the labelled transitions that checks/c06.py walks      *)
(* through with the real classes.                                            *)
(* Pool "A": root element 1 (children 2 "a" with text 3), detached 4 "b",    *)
(* text 5, fragment 6 (text 7, element 8 "a").                               *)
(* Pool "B": root element 1 holding fragment 2 as its children ("self"; texts *)
(* 3, 4) and fragment 5 (text 6) as attribute "x"; detached 7 "a", text 8.   *)
EXTENDS Dom, TLC, Json, IOUtils
\* Wide: 0 a few operations, 1 more, 2 all of them with many arguments
CONSTANTS Pool, Depth, Wide
VARIABLES st, len
Base(kind, data, kids, att, self) == [kind |-> kind, data |-> data, kids |-> kids, att |-> att, self |-> self, stale |-> {}]
Start == IF Pool = "A"
         THEN Base(<<"elem", "elem", "text", "elem", "text", "frag", "text", "elem">>, <<"r", "a", "p", "b", "q", "", "s", "a">>,
                   <<<<2>>, <<3>>, <<>>, <<>>, <<>>, <<7, 8>>, <<>>, <<>>>>,
                   <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, <<0, 0, 0, 0, 0, 0, 0, 0>>)
         ELSE Base(<<"elem", "frag", "text", "text", "frag", "text", "elem", "text">>, <<"r", "", "p", "q", "", "s", "a", "t">>,
                   <<<<>>, <<3, 4>>, <<>>, <<>>, <<6>>, <<>>, <<>>, <<>>>>,
                   <<<<<<"self", <<2>>, "node">>, <<"x", <<5>>, "node">>>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>,
                   <<2, 0, 0, 0, 0, 0, 0, 0>>)
A(n) == [n |-> n, s |-> ""]
S(t) == [n |-> 0, s |-> t]
Op(o, p, a, i, r) == [o |-> o, p |-> p, a |-> a, i |-> i, r |-> r, as |-> <<>>, subs |-> <<>>, s |-> ""]
Holders == IF Wide = 0 THEN (IF Pool = "A" THEN {1, 6} ELSE {1, 2}) ELSE IF Pool = "A" THEN {1, 2, 6} ELSE {1, 2, 5}
Args == IF Wide = 0 THEN (IF Pool = "A" THEN {A(4), A(6)} ELSE {A(7), A(8)}) ELSE IF Pool = "A" THEN {A(4), A(5), A(6)} ELSE {A(7), A(8)}
Refs(s, p) == Range(Kids(s, p))
Idx == IF Wide = 2 THEN {-2, -1, 0, 1, 3} ELSE IF Wide = 1 THEN {-1, 0, 1} ELSE {-1}
Ops(s) ==
    UNION {
      {Op("append", p, a, 0, 0) : a \in Args \cup (IF Wide = 2 THEN {S("z")} ELSE {})}
      \cup {Op("insert", p, a, i, 0) : a \in Args, i \in Idx}
      \cup {Op(o, p, a, 0, r) : o \in (IF Wide = 2 THEN {"before", "after", "replace"} ELSE {"before", "replace"}), a \in Args,
                               r \in Refs(s, p) \cup (IF Wide = 2 THEN {3} ELSE {})}
      \cup {Op("remove", p, A(0), 0, r) : r \in Refs(s, p)}
      \cup {Op("pop", p, A(0), i, 0) : i \in IF Wide = 0 THEN {0} ELSE Idx}
      \cup {Op("set", p, a, i, 0) : a \in Args, i \in Idx}
      \cup {Op("normalize", p, A(0), 0, 0)}
      \cup (IF Wide = 2 THEN {Op("clone", p, A(0), 0, 0), [Op("extend", p, A(0), 0, 0) EXCEPT !.as = <<A(4), S("y")>>]} ELSE {})
      : p \in Holders}
Key(s) == ToString(<<s.kind, s.kids, s.data, s.att, s.stale>>)
Init == st = Start /\ len = 0
Do(op) == /\ len < Depth /\ Legal(st, op)
          /\ LET r == Apply(st, op) IN
             /\ st' = r.st
             /\ (IF "OUT" \in DOMAIN IOEnv THEN PrintT(<<"E", Key(st), ToJson(op), ToJson([ok |-> r.ok, ret |-> r.ret]), Key(r.st)>>) ELSE TRUE)
          /\ len' = len + 1
Next == \E op \in Ops(st) : Do(op)
Spec == Init /\ [][Next]_<<st, len>>
----------------------------------------------------------------------------
Containers == {n \in Live(st) : st.kind[n] # "text" /\ HeldBy(st, n)[1] = "none"}
TreeInv == Tree(st)
\* siblings, first and last child, order and positions agree
ViewInv ==
    LET v == [n \in Live(st) |-> NodeView(st, n)]
        pos == Positions(st, NoAlias(st))
    IN /\ \A n \in Live(st) :
          /\ v[n].prev # 0 => v[v[n].prev].next = n
          /\ v[n].next # 0 => v[v[n].next].prev = n /\ pos[n][v[n].next] = 4
          /\ v[n].first # 0 => v[v[n].first].prev = 0
          /\ v[n].last # 0 => v[v[n].last].next = 0
       /\ \A a, b \in DOMAIN pos : pos[a][b] = (CASE pos[b][a] = 4 -> 2 [] pos[b][a] = 2 -> 4 [] pos[b][a] = 8 -> 16
                                                  [] pos[b][a] = 16 -> 8 [] OTHER -> pos[b][a])
       /\ \A a, b, c \in DOMAIN pos : pos[a][b] = 4 /\ pos[b][c] = 4 => pos[a][c] = 4
NormInv ==
    \A n \in Containers :
       LET s == Normalize(st, n, <<>>)
           s2 == Normalize(s, n, <<>>)
       IN /\ Tree(s)
          /\ Text(s, n) = Text(st, n)
          /\ \A m \in {n} \cup {x \in Range(AllKids(s, n)) : s.kind[x] # "text"} :
                \A i \in 1..(Len(Kids(s, m)) - 1) : s.kind[Kids(s, m)[i]] # "text" \/ s.kind[Kids(s, m)[i + 1]] # "text"
          /\ LET c == CopyInto(s, n) IN Same(Normalize(c, n, <<>>), n, N(s) + 1)
CloneInv ==
    \A n \in Containers :
       LET s == CopyInto(st, n)
           new == (N(st) + 1)..N(s)
       IN /\ Same(s, n, N(st) + 1)
          /\ Range(Below(s, N(st) + 1)) \cup {N(st) + 1} = {m \in new : ~\E e \in new : s.self[e] = m}
          /\ \A m \in 1..N(st) : s.kids[m] = st.kids[m] /\ s.att[m] = st.att[m]
          /\ Text(s, N(st) + 1) = Text(st, n)
\* for checks/c06.py: what a state looks like
Emit == IF "OUT" \in DOMAIN IOEnv
        THEN PrintT(<<"S", Key(st), ToJson([n \in Live(st) |-> [v |-> NodeView(st, n), par |-> Parents(st, n)]])>>)
        ELSE TRUE
=============================================================================
