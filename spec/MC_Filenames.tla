---------------------------- MODULE MC_Filenames ----------------------------
(* Every generator over a small template language, every sequence of up to  *)
(* MaxReq requests with bindings before each of them.                       *)
EXTENDS Filenames, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxReq, Big
Lit(s) == [k |-> "lit", s |-> s]
Var(s, w) == [k |-> "var", s |-> s, w |-> w]
Statics == { <<>>, << <<Lit("i")>> >>, << <<Lit("i")>>, <<Lit("b")>> >>, << <<Var("a", -1)>>, <<Lit("s"), Var("num", 2)>> >>,
             << <<Lit("i")>>, <<Lit("i")>> >> }
Alts == { <<Var("a", -1)>>, <<Var("b", 1)>>, <<Lit("s"), Var("num", -1)>>, <<Lit("i")>>,
          <<Var("a", -1), Lit("."), Var("num", 2)>> }
Wilds == {<<>>} \cup {<<x>> : x \in Alts} \cup {<<x, y>> : x, y \in Alts}
         \cup (IF Big THEN {<<x, y, z>> : x, y, z \in Alts} ELSE {})
Values == {"x", "i", "s1"}
Confs == { [ext |-> ".h", bad |-> "", rep |-> ""], [ext |-> "", bad |-> "x", rep |-> "i"] }
Reserved == { {}, {"s1", "s2", "x.h", "s2.h", "s1.h"} }
Inits == { [k \in {} |-> ""], [k \in {"b"} |-> "i x"] }
VARIABLES f, issued, reqs, res
vars == <<f, issued, reqs, res>>
Init == /\ \E s \in Statics, w \in Wilds, c \in Confs, r \in Reserved, v \in Inits : f = New(s, w, c, r, v) /\ res = r
        /\ issued = <<>> /\ reqs = 0
\* bindings and one request
Binding == {<<>>} \cup {<< <<"a", v>> >> : v \in Values} \cup {<< <<"b", v>> >> : v \in Values}
RECURSIVE BindAll(_, _)
BindAll(g, bs) == IF bs = <<>> THEN g ELSE BindAll(Bind(g, bs[1][1], bs[1][2]), Tail(bs))
Next == /\ reqs < MaxReq /\ reqs' = reqs + 1 /\ UNCHANGED res
        /\ \E bs \in Binding : LET r == Request(BindAll(f, bs)) IN
             /\ f' = r[1] /\ issued' = IF r[2] = "name" THEN Append(issued, r[3]) ELSE Append(issued, "?")
Spec == Init /\ [][Next]_vars
Names == {i \in DOMAIN issued : issued[i] # "?"}
Distinct == \A i, j \in Names : i # j => issued[i] # issued[j]
NotReserved == \A i \in Names : issued[i] \notin res
Clean == \A i \in Names : \A c \in Chars(f.conf.bad) : c \notin Chars(issued[i])
Reset == [][reqs' # reqs /\ issued'[Len(issued')] # "?" => f'.vars = f.init]_vars
NumOnly == [][f'.num >= f.num]_vars
\* an error is reported only when no alternative can give a fresh name
NoFresh == [][issued' # issued /\ issued'[Len(issued')] = "?" =>
              \A i \in DOMAIN f.wild : ~Fresh(f', f'.wild[i])]_vars
\* every generator of the model, and every sequence of bindings to use it with
Gen(s, w, c, r, v) == [static |-> s, wild |-> w, conf |-> c, reserved |-> SetToSeq(r),
   init |-> IF v = [k \in {} |-> ""] THEN <<>> ELSE << <<"b", "i x">> >>]
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT,
   [gens |-> SetToSeq({Gen(s, w, c, r, v) : s \in Statics, w \in Wilds, c \in Confs, r \in Reserved, v \in Inits}),
    binds |-> SetToSeq(IF Big THEN [1..3 -> Binding] ELSE [1..2 -> Binding])])
=============================================================================
