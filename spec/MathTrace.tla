----------------------------- MODULE MathTrace ------------------------------
(* Documents with verbatim material or formulas, as the implementation read   *)
(* them: [kind |-> "verb", src, items] or [kind |-> "math", macros, forms];    *)
(* a form is [k, src, node, jax, html].                                       *)
EXTENDS Verbatim, Json, IOUtils
M == INSTANCE MathSrc
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, found, done
vars == <<tid, l, found, done>>
Verdict(v, why) == PrintT(<<"V", tid, v, why>>) /\ done' = TRUE /\ UNCHANGED <<l, found>>
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ found = FALSE /\ done = FALSE
T == Traces[tid]
FirstDiff(a, b) == LET q == {k \in 1..(Len(a) + 1) : k > Len(b) \/ k > Len(a) \/ a[k] # b[k]} IN CHOOSE k \in q : \A x \in q : k <= x
Show(a, k) == IF k <= Len(a) THEN ToString(a[k]) ELSE "nothing"
Wrong(what, a, b) == LET k == FirstDiff(a, b) IN what \o " " \o ToString(k) \o ": " \o Show(b, k) \o " instead of " \o Show(a, k)
\* a form: "" when it is right, "known" for the finding, else what is wrong
Judge(ms, f) ==
  LET w == TLCEval(M!Wanted(ms, f.k, f.src))
      A(what, x, chars) == LET o == TLCEval(M!Canon(M!Lex(chars))) IN
            IF o = x THEN ""
            ELSE IF f.cells /\ M!Canon(M!Lex(M!Typed(chars))) = x THEN "known" ELSE Wrong(what, x, o)
      n == A("token of the source", w, f.node)
      j == IF f.jax = <<>> THEN "" ELSE A("token of the source for MathJax", M!Canon(M!Jax(w)), f.jax)
      h == IF f.html = <<>> THEN "" ELSE A("token of the formula on the page", M!Canon(M!Jax(w)), f.html) IN
  IF w = <<"bad">> THEN "skip" ELSE IF n \notin {"", "known"} THEN n ELSE IF j \notin {"", "known"} THEN j ELSE IF h \notin {"", "known"} THEN h ELSE IF "known" \in {n, j, h} THEN "known" ELSE ""
Next == ~done /\ UNCHANGED tid
  /\ IF T.kind = "verb"
     THEN LET w == TLCEval(Items(T.src)) IN
          IF Scan(T.src).m \notin {"text", "skip", "cmt"} THEN Verdict("skip", "")
          ELSE IF w = T.items THEN Verdict("ok", "") ELSE Verdict("reject", Wrong("item", w, T.items))
     ELSE IF T.nforms # Len(T.forms) THEN Verdict("reject", "number of formulas")
     ELSE IF l > Len(T.forms) THEN IF found THEN Verdict("known", "substitution in cells of mathematics") ELSE Verdict("ok", "")
     ELSE LET r == TLCEval(Judge(T.macros, T.forms[l])) IN
          IF r \in {"", "known"} THEN l' = l + 1 /\ found' = (found \/ r = "known") /\ UNCHANGED done
          ELSE IF r = "skip" THEN Verdict("skip", "") ELSE Verdict("reject", "formula " \o ToString(l) \o ", " \o r)
Spec == Init /\ [][Next]_vars
=============================================================================
