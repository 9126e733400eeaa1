-------------------------------- MODULE Dom --------------------------------
(* The document tree as a plain list-of-lists model (C06).                  *)
(*                                                                          *)
(* Nodes are numbered 1..N.  A state is a record of sequences:              *)
(*   kind[n]  "doc", "elem", "text", "frag" or "dead"                       *)
(*   data[n]  the characters of a text, the tag name of an element          *)
(*   kids[n]  the children, in order                                        *)
(*   att[n]   attribute values that are nodes: <<name, <<nodes>>, shape>>,  *)
(*            shape "node" (a fragment or an element) or "list"             *)
(*   self[n]  the fragment that acts as the children of n, 0 if there is    *)
(*            none (an attribute named "self")                              *)
(*   stale    nodes that were taken out of a tree (or copied from one):     *)
(*            nothing is said about their parent link until they are used   *)
(*            again (they are trees of their own all the same)              *)
(* Texts merged away and fragments whose children were inserted somewhere   *)
(* are "dead": nothing is said about them any more.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Alias(st, p) == IF st.self[p] # 0 THEN st.self[p] ELSE p
Kids(st, p) == st.kids[Alias(st, p)]
SetKids(st, p, s) == [st EXCEPT !.kids[Alias(st, p)] = s]
N(st) == Len(st.kind)
Live(st) == {n \in 1..N(st) : st.kind[n] # "dead"}
Range(s) == {s[i] : i \in DOMAIN s}

\* adds a node; its number is N(st)+1
New(st, kind, data) ==
    [st EXCEPT !.kind = Append(@, kind), !.data = Append(@, data), !.kids = Append(@, <<>>),
               !.att = Append(@, <<>>), !.self = Append(@, 0)]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
AttNodes(st, n) == Flat([i \in DOMAIN st.att[n] |-> st.att[n][i][2]])

\* the node that holds n: <<"kids", p>>, <<"att", p>> or <<"none", 0>>
HeldBy(st, n) ==
    IF \E p \in Live(st) : n \in Range(st.kids[p])
    THEN <<"kids", CHOOSE p \in Live(st) : n \in Range(st.kids[p])>>
    ELSE IF \E p \in Live(st) : n \in Range(AttNodes(st, p))
         THEN <<"att", CHOOSE p \in Live(st) : n \in Range(AttNodes(st, p))>>
         ELSE <<"none", 0>>

\* the parents that n may name; {} = nothing is said
Parents(st, n) ==
    LET h == HeldBy(st, n)
    IN IF h[1] = "kids"
       THEN {h[2]} \cup {e \in Live(st) : st.self[e] = h[2]}
       ELSE IF h[1] = "att" THEN {h[2]}
       ELSE IF n \in st.stale THEN {} ELSE {0}

RECURSIVE Sub1(_, _, _)
Sub1(s, a, b) ==
    IF Len(s) < Len(a) THEN s
    ELSE IF SubSeq(s, 1, Len(a)) = a THEN b \o Sub1(SubSeq(s, Len(a) + 1, Len(s)), a, b)
    ELSE SubSeq(s, 1, 1) \o Sub1(SubSeq(s, 2, Len(s)), a, b)
RECURSIVE Subst(_, _)
Subst(s, subs) == IF subs = <<>> THEN s ELSE Subst(Sub1(s, subs[1][1], subs[1][2]), Tail(subs))

\* ---------------------------------------------------------------- views
RECURSIVE Text(_, _)
Text(st, n) ==
    IF st.kind[n] = "text" THEN st.data[n]
    ELSE LET RECURSIVE Cat(_)
             Cat(s) == IF s = <<>> THEN "" ELSE Text(st, Head(s)) \o Cat(Tail(s))
         IN Cat(Kids(st, n))

\* document order below n: attribute values before children
RECURSIVE Below(_, _)
Below(st, n) ==
    LET vals == SelectSeq(AttNodes(st, n), LAMBDA v : v # st.self[n]) \o Kids(st, n)
    IN Flat([i \in DOMAIN vals |-> <<vals[i]>> \o Below(st, vals[i])])
RECURSIVE AllKids(_, _)
AllKids(st, n) == LET k == Kids(st, n) IN Flat([i \in DOMAIN k |-> <<k[i]>> \o AllKids(st, k[i])])

ByTag(st, n, tag) == SelectSeq(Below(st, n), LAMBDA m : st.kind[m] = "elem" /\ st.data[m] = tag)

\* position of b relative to a, for all of the nodes ns
\* what is below a node, and a fragment acting as the children counts too
Free(st) == Live(st) \ UNION {Range(st.kids[p]) \cup Range(AttNodes(st, p)) : p \in Live(st)}
NoAlias(st) == Live(st) \ Range(st.self)
Positions(st, ns) ==
    LET free == TLCEval(Free(st))
        ord == TLCEval([r \in free |-> <<r>> \o Below(st, r)])
        root == TLCEval([n \in ns |-> CHOOSE r \in free : n \in Range(ord[r])])
        below == TLCEval([n \in ns |-> Range(Below(st, n))])
        ix == TLCEval([n \in ns |-> CHOOSE i \in DOMAIN ord[root[n]] : ord[root[n]][i] = n])
    IN TLCEval([a \in ns |-> [b \in ns |->
         IF a = b THEN 32 ELSE IF root[a] # root[b] THEN 1
         ELSE IF a \in below[b] THEN 8 ELSE IF b \in below[a] THEN 16
         ELSE IF ix[a] < ix[b] THEN 4 ELSE 2]])

RECURSIVE Same(_, _, _)
Same(st, a, b) ==
    /\ st.kind[a] = st.kind[b] /\ st.data[a] = st.data[b]
    /\ Len(st.att[a]) = Len(st.att[b])
    /\ \A i \in DOMAIN st.att[a] : \E j \in DOMAIN st.att[b] :
        /\ st.att[a][i][1] = st.att[b][j][1] /\ st.att[a][i][3] = st.att[b][j][3]
        /\ Len(st.att[a][i][2]) = Len(st.att[b][j][2])
        /\ \A k \in DOMAIN st.att[a][i][2] : Same(st, st.att[a][i][2][k], st.att[b][j][2][k])
    /\ Len(Kids(st, a)) = Len(Kids(st, b))
    /\ \A k \in DOMAIN Kids(st, a) : Same(st, Kids(st, a)[k], Kids(st, b)[k])

\* ------------------------------------------------------------ operations
\* what an argument stands for: <<state, nodes to insert>>
Arg(st, a) ==
    IF a.n = 0 THEN LET s == New(st, "text", a.s) IN <<s, <<N(s)>>>>
    ELSE IF st.kind[a.n] = "frag" THEN <<[st EXCEPT !.kind[a.n] = "dead", !.kids[a.n] = <<>>, !.stale = @ \ {a.n}], st.kids[a.n]>>
    ELSE <<[st EXCEPT !.stale = @ \ {a.n}], <<a.n>>>>

IndexOf(s, x) == IF x \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
Splice(s, i, del, ins) == SubSeq(s, 1, i) \o ins \o SubSeq(s, i + del + 1, Len(s))
\* 0-based position, as Python reads it: for insertion / for access (-1 if invalid)
InsPos(s, i) == IF i < 0 THEN (IF Len(s) + i < 0 THEN 0 ELSE Len(s) + i) ELSE IF i > Len(s) THEN Len(s) ELSE i
GetPos(s, i) == LET j == IF i < 0 THEN Len(s) + i ELSE i IN IF j < 0 \/ j >= Len(s) THEN -1 ELSE j

Stale(st, n) == [st EXCEPT !.stale = @ \cup {n}]
\* n leaves the children of p (a move inside of the same parent)
Detach(st, p, n) == IF n = 0 THEN st ELSE SetKids(st, p, SelectSeq(Kids(st, p), LAMBDA k : k # n))

Put(st, p, i, del, a) == LET r == Arg(st, a) IN SetKids(r[1], p, Splice(Kids(r[1], p), i, del, r[2]))

\* deep copy, numbered in preorder, attribute values (by name) first
RECURSIVE CopyInto(_, _)
CopyInto(st, n) ==
    LET s0 == New(st, st.kind[n], st.data[n])
        me == N(s0)
        RECURSIVE Vals(_, _, _)
        Vals(s, vs, acc) == IF vs = <<>> THEN <<s, acc>>
                            ELSE LET t == CopyInto(s, Head(vs))
                                 IN Vals(t, Tail(vs), Append(acc, N(s) + 1))
        RECURSIVE Atts(_, _)
        Atts(s, i) ==
            IF i > Len(st.att[n]) THEN s
            ELSE LET r == Vals(s, st.att[n][i][2], <<>>)
                 IN Atts([r[1] EXCEPT !.att[me] = Append(@, <<st.att[n][i][1], r[2], st.att[n][i][3]>>),
                                      !.self[me] = IF st.self[n] # 0 /\ st.att[n][i][2] = <<st.self[n]>> THEN r[2][1] ELSE @], i + 1)
        s1 == Atts(s0, 1)
        s2 == Vals(s1, st.kids[n], <<>>)
    IN [s2[1] EXCEPT !.kids[me] = s2[2]]

\* merges adjacent texts below n; the merged texts are new nodes, numbered in
\* preorder
RECURSIVE Normalize(_, _, _)
Normalize(st, n, subs) ==
    LET RECURSIVE Vals(_, _)
        Vals(s, vs) == IF vs = <<>> THEN s
                       ELSE Vals(IF Head(vs) = st.self[n] THEN s ELSE Normalize(s, Head(vs), subs), Tail(vs))
        Flush(s, run, acc) == IF run = <<>> THEN <<s, acc>>
                              ELSE LET RECURSIVE Cat(_)
                                       Cat(r) == IF r = <<>> THEN "" ELSE s.data[Head(r)] \o Cat(Tail(r))
                                       t == New([s EXCEPT !.kind = [i \in DOMAIN @ |-> IF i \in Range(run) THEN "dead" ELSE @[i]]],
                                                "text", Subst(Cat(run), subs))
                                   IN <<t, Append(acc, N(t))>>
        RECURSIVE Walk(_, _, _, _)
        Walk(s, ks, run, acc) ==
            IF ks = <<>> THEN Flush(s, run, acc)
            ELSE IF s.kind[Head(ks)] = "text" THEN Walk(s, Tail(ks), Append(run, Head(ks)), acc)
            ELSE LET f == Flush(s, run, acc)
                 IN Walk(Normalize(f[1], Head(ks), subs), Tail(ks), <<>>, Append(f[2], Head(ks)))
        s1 == Vals(st, AttNodes(st, n))
        r == Walk(s1, Kids(s1, n), <<>>, <<>>)
    IN SetKids(r[1], n, r[2])

\* the result: [ok |-> BOOLEAN, st |-> state, ret |-> node returned, 0 = nothing is said]
Good(st, ret) == [ok |-> TRUE, st |-> st, ret |-> ret]
Bad(st) == [ok |-> FALSE, st |-> st, ret |-> 0]
RECURSIVE Extend(_, _, _)
Extend(st, p, as) == IF as = <<>> THEN st ELSE Extend(Put(st, p, Len(Kids(st, p)), 0, Head(as)), p, Tail(as))

Apply(st, op) ==
    LET p == op.p
        k == IF p = 0 THEN <<>> ELSE Kids(st, p)
        \* moves inside of the same parent take the node out first
        mv == IF op.o \in {"before", "after", "replace"} /\ op.a.n \in Range(k) THEN op.a.n ELSE 0
        s0 == Detach(st, p, mv)
        k0 == IF p = 0 THEN <<>> ELSE Kids(s0, p)
        at == IF p = 0 THEN 0 ELSE IndexOf(k0, op.r)
    IN CASE op.o = "append" -> Good(Put(st, p, Len(k), 0, op.a), op.a.n)
         [] op.o = "insert" -> Good(Put(st, p, InsPos(k, op.i), 0, op.a), op.a.n)
         [] op.o = "before" -> IF at = 0 THEN Bad(st) ELSE Good(Put(s0, p, at - 1, 0, op.a), op.a.n)
         [] op.o = "after" -> IF at = 0 THEN Bad(st) ELSE Good(Put(s0, p, at, 0, op.a), op.a.n)
         [] op.o = "replace" -> IF at = 0 THEN Bad(st) ELSE Good(Stale(Put(s0, p, at - 1, 1, op.a), op.r), op.r)
         [] op.o = "remove" -> IF at = 0 THEN Bad(st) ELSE Good(Stale(SetKids(st, p, Splice(k, at - 1, 1, <<>>)), op.r), op.r)
         [] op.o = "pop" -> LET j == GetPos(k, op.i)
                            IN IF j = -1 THEN Bad(st) ELSE Good(Stale(SetKids(st, p, Splice(k, j, 1, <<>>)), k[j + 1]), k[j + 1])
         [] op.o = "set" -> LET j == GetPos(k, op.i)
                            IN IF j = -1 THEN Bad(st) ELSE Good(Stale(Put(st, p, j, 1, op.a), k[j + 1]), 0)
         [] op.o = "extend" -> Good(Extend(st, p, op.as), p)
         \* every child of a fragment (which is used up)
         [] op.o = "extendf" -> Good(Put(st, p, Len(k), 0, op.a), p)
         [] op.o = "normalize" -> Good(Normalize(st, p, op.subs), 0)
         [] op.o = "clone" -> LET s == CopyInto(st, p) IN Good(Stale(s, N(st) + 1), N(st) + 1)
         \* a shallow copy; nothing is said about the copy
         [] op.o = "shallow" -> Good(st, 0)
         \* a new attribute with a detached node as value
         [] op.o = "attr" -> Good([st EXCEPT !.att[p] = Append(@, <<op.s, <<op.a.n>>, "node">>), !.stale = @ \ {op.a.n}], 0)

\* ---------------------------------------------------------- what is legal
\* p is not inside of (or the same as) n
Outside(st, p, n) == p # n /\ p \notin Range(Below(st, n)) /\ p # st.self[n] /\ \A m \in Range(Below(st, n)) : st.self[m] # p
IsAlias(st, n) == \E e \in Live(st) : st.self[e] = n
Detached(st, n) == /\ n \in Live(st) /\ st.kind[n] # "doc"
                   /\ \A p \in Live(st) : n \notin Range(st.kids[p]) /\ n \notin Range(AttNodes(st, p))
ArgOk(st, p, a) == IF a.n = 0 THEN TRUE
                   ELSE IF ~Detached(st, a.n) THEN FALSE
                   ELSE Outside(st, p, a.n)
\* nothing held in a list attribute below n (those are not normalized)
NoLists(st, n) == \A m \in Range(<<n>> \o Below(st, n)) : \A i \in DOMAIN st.att[m] : st.att[m][i][3] = "node"
CanHold(st, p) == p \in Live(st) /\ st.kind[p] \in {"elem", "frag", "doc"}
Legal(st, op) ==
    /\ CanHold(st, op.p)
    /\ CASE op.o \in {"append", "insert", "set", "extendf"} -> ArgOk(st, op.p, op.a)
         [] op.o \in {"before", "after", "replace"} ->
              IF op.a.n \in Range(Kids(st, op.p)) /\ op.a.n # 0
              THEN op.r \in Range(Kids(st, op.p)) /\ op.r # op.a.n
              ELSE ArgOk(st, op.p, op.a) /\ op.r \in Live(st)
         [] op.o = "remove" -> op.r \in Live(st)
         [] op.o = "extend" -> /\ \A i \in DOMAIN op.as : ArgOk(st, op.p, op.as[i])
                               /\ \A i, j \in DOMAIN op.as : (i # j /\ op.as[i].n # 0) => op.as[i].n # op.as[j].n
         [] op.o = "normalize" -> NoLists(st, op.p)
         [] op.o = "attr" -> st.kind[op.p] = "elem" /\ op.a.n # 0 /\ ArgOk(st, op.p, op.a) /\ st.kind[op.a.n] # "text"
                           /\ \A i \in DOMAIN st.att[op.p] : st.att[op.p][i][1] # op.s
         [] op.o \in {"clone", "shallow"} -> st.kind[op.p] # "doc"
         [] OTHER -> TRUE

\* ------------------------------------------------------------- snapshots
\* what the recorded snapshot of node n must be
NodeView(st, n) ==
    LET h == HeldBy(st, n)
        k == IF st.kind[n] = "text" THEN <<>> ELSE Kids(st, n)
        l == IF h[1] = "kids" THEN st.kids[h[2]] ELSE <<>>
        i == IndexOf(l, n)
    IN [kids |-> k, prev |-> IF i > 1 THEN l[i - 1] ELSE 0, next |-> IF i > 0 /\ i < Len(l) THEN l[i + 1] ELSE 0,
        first |-> IF k = <<>> THEN 0 ELSE k[1], last |-> IF k = <<>> THEN 0 ELSE k[Len(k)],
        text |-> Text(st, n)]

\* --------------------------------------------------- the model's own sanity
Tree(st) ==
    /\ \A n \in Live(st) : Cardinality({p \in Live(st) : n \in Range(st.kids[p])}) + Cardinality({p \in Live(st) : n \in Range(AttNodes(st, p))}) <= 1
    /\ \A p \in Live(st) : /\ Range(st.kids[p]) \subseteq Live(st)
                           /\ Cardinality(Range(st.kids[p])) = Len(st.kids[p])
                           /\ Range(AttNodes(st, p)) \subseteq Live(st)
                           /\ \A c \in Range(st.kids[p]) : st.kind[c] \in {"elem", "text"}
    /\ \A n \in Live(st) : n \notin Range(Below(st, n))
    /\ \A n \in Live(st) : st.self[n] # 0 => /\ st.kids[n] = <<>>
                                             /\ st.self[n] \in Range(AttNodes(st, n))
=============================================================================
