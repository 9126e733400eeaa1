----------------------------- MODULE MC_Digest -----------------------------
(* Every short document.  The words and containers that the machine gives    *)
(* are compared with a reading of the token sequence by counting, and the    *)
(* substitution with the one the implementation makes, pattern by pattern.   *)
EXTENDS Digest, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, OutLen, StrLen
VARIABLES st, hist
vars == <<st, hist>>
Alphabet == {[t |-> "w"], [t |-> "raw", k |-> "verb"], [t |-> "par"], [t |-> "cmd", k |-> "textbf"], [t |-> "cmd", k |-> "footnote"], [t |-> "grp"], [t |-> "math", k |-> "math"], [t |-> "env", k |-> "quote"],
             [t |-> "end"], [t |-> "list", k |-> "itemize"], [t |-> "item"], [t |-> "table", k |-> "tabular"], [t |-> "cell"], [t |-> "row"], [t |-> "sec", k |-> "section", lv |-> 1], [t |-> "sec", k |-> "subsection", lv |-> 2], [t |-> "sec", k |-> "subsubsection", lv |-> 3]}
\* a title follows a section at once
Final(h) == IF h = <<>> THEN "" ELSE h[Len(h)].t
Emitted(h, tk) == IF tk.t \in {"w", "raw"} THEN [x \in DOMAIN tk \cup {"s"} |-> IF x = "s" THEN <<ToString(Len(h) + 1), "-", "-">> ELSE tk[x]] ELSE tk
Open(s) == Cardinality({i \in DOMAIN s.fr : s.fr[i].t \notin {"doc", "sec", "item", "cell", "row"}})
NextOk(s, h, tk) ==
  /\ CanStep(s, tk)
  /\ (Final(h) = "sec") <=> (tk.t = "arg")
  /\ tk.t \in {"cmd", "math", "list", "table", "env"} => ~InMath(s)
  /\ tk.t = "par" => Final(h) \notin {"par", ""}
  /\ tk.t = "sec" => Final(h) # "par"
  /\ tk.t = "cmd" => Top(s).t # "cmd" \/ Top(s).k # tk.k
All == Alphabet \cup {[t |-> "arg", k |-> ".title"]}
Init == st = Boot /\ hist = <<>>
Next == \E tk \in All :
  /\ NextOk(st, hist, tk)
  /\ LET e == Emitted(hist, tk)  s == Step(st, e) IN
     /\ Len(hist) + 1 + Open(s) + (IF tk.t = "sec" THEN 2 ELSE 0) + (IF Top(s).t = "list" THEN 1 ELSE 0) <= MaxLen
     /\ st' = s /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every word once, in order, whatever the containers
WordsOf(h) == SelectSeq(h, LAMBDA t : t.t \in {"w", "raw"})
Once == [i \in DOMAIN st.out |-> st.out[i].s[1]] = [i \in DOMAIN WordsOf(hist) |-> WordsOf(hist)[i].s[1]]
Openers == {"arg", "cmd", "math", "env", "list", "table", "grp"}
D(h, i) == Cardinality({j \in 1..i : h[j].t \in Openers}) - Cardinality({j \in 1..i : h[j].t = "end"})
Inside(h, j, i) == \A x \in j..i : D(h, x) >= D(h, j)
Current(h, j, i, ts) == Inside(h, j, i) /\ \A x \in (j + 1)..i : ~(h[x].t \in ts /\ D(h, x) = D(h, j))
Container(h, j, i) ==
  CASE h[j].t = "sec" -> IF \A x \in (j + 1)..i : h[x].t = "sec" => h[x].lv > h[j].lv THEN <<h[j].k>> ELSE <<>>
    [] h[j].t \in {"item"} -> IF Current(h, j, i, {"item"}) THEN <<"item">> ELSE <<>>
    [] h[j].t \in {"cmd", "math", "env", "list", "arg"} -> IF Inside(h, j, i) THEN <<h[j].k>> ELSE <<>>
    [] h[j].t = "table" -> IF Inside(h, j, i) THEN <<"tabular", "ArrayRow", "ArrayCell">> ELSE <<>>
    [] OTHER -> <<>>
Containers(h, i) == LET C[j \in 0..i] == IF j = 0 THEN <<"document">> ELSE C[j - 1] \o Container(h, j, i) IN C[i] \o (IF h[i].t = "raw" THEN <<h[i].k>> ELSE <<>>)
Where == \A i \in DOMAIN hist : hist[i].t \in {"w", "raw"} => \A n \in DOMAIN st.out : st.out[n].s[1] = hist[i].s[1] => st.out[n].c = Containers(hist, i)
\* substitution in running text only
Plain(h, i) == hist[i].t = "w" /\ \A j \in 1..i : ~(h[j].t = "math" /\ Inside(h, j, i))
Substituted == \A i \in DOMAIN hist : hist[i].t \in {"w", "raw"} => \A n \in DOMAIN st.out : st.out[n].s[1] = hist[i].s[1] => (st.out[n].s[2] = "U+2013" <=> Plain(hist, i))
\* units nest by level
Nested == \A i, j \in DOMAIN st.fr : i < j /\ st.fr[i].t = "sec" /\ st.fr[j].t = "sec" => st.fr[i].lv < st.fr[j].lv
-----------------------------------------------------------------------------
(* The implementation replaces all occurrences of the first pattern, then all *)
(* of the second, ...                                                         *)
Order == <<2, 3, 5, 6, 7, 8, 1, 4>>
RECURSIVE Replaced(_, _, _)
Replaced(s, p, c) == IF Len(s) < Len(p) THEN s ELSE IF Starts(s, p) THEN <<c>> \o Replaced(SubSeq(s, Len(p) + 1, Len(s)), p, c) ELSE <<s[1]>> \o Replaced(Tail(s), p, c)
OneByOne(s) == LET R[i \in 0..Len(Order)] == IF i = 0 THEN s ELSE Replaced(R[i - 1], Subs[Order[i]], Code[Order[i]]) IN R[Len(Order)]
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
ASSUME \A s \in Strings({"-", "`", "'", "x"}, StrLen) : OneByOne(s) = Sub(s)
ASSUME \A s \in Strings({"-", "`", "'", "x"}, StrLen - 1) : Sub(Sub(s)) = Sub(s)
-----------------------------------------------------------------------------
RECURSIVE Ext(_, _)
Ext(out, front) ==
  IF front = {} THEN out
  ELSE LET next == {x \in UNION {{[s |-> Step(f.s, Emitted(f.h, tk)), h |-> Append(f.h, Emitted(f.h, tk))] : tk \in {tk \in All : NextOk(f.s, f.h, tk)}} : f \in front} :
                       Len(x.h) + Open(x.s) + (IF Final(x.h) = "sec" THEN 2 ELSE 0) + (IF Top(x.s).t = "list" THEN 1 ELSE 0) <= OutLen}
       IN Ext(out \cup {x.h : x \in {x \in next : Complete(x.s)}}, next)
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq(Ext({}, {[s |-> Boot, h |-> <<>>]})))
=============================================================================
