---- MODULE EscapingTrace ----
(* A trace is either a text and what the renderer makes of it, or the pages   *)
(* of a document and the pages of the same document with harmless words in    *)
(* place of its texts: both must be the same tokens once every piece of text  *)
(* has been found to be what it displays.                                     *)
EXTENDS Escaping, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
vars == <<tid, done>>

P == <<112>>
HookOk(t) == Read(<<60, 112, 62>> \o t.got \o <<60, 47, 112, 62>>) =
             << <<"<", P, <<>> >> >> \o (IF t.text = <<>> THEN <<>> ELSE << <<"t", t.text>> >>) \o << <<"/", P>> >>

Ascii(s) == \A i \in DOMAIN s : s[i] < 128
FirstDiff(a, b) == CHOOSE i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) :
                     /\ \A j \in 1..i - 1 : j \in DOMAIN a /\ j \in DOMAIN b /\ a[j] = b[j]
                     /\ ~(i \in DOMAIN a /\ i \in DOMAIN b /\ a[i] = b[i])
Tok(a, i) == IF i \in DOMAIN a THEN a[i] ELSE <<"end">>
WrongPiece(e) == e[1] \in {"t", "!"} /\ \E i \in DOMAIN e[2] : e[2][i] <= -3000
WrongAttr(e) == e[1] = "<" /\ \E k \in DOMAIN e[3] : \E i \in DOMAIN e[3][k][2] : e[3][k][2][i] <= -3000

PageVerdict(t, pg, disp, words) ==
  LET a == TLCEval(Canon(pg.adv, disp))
      b == TLCEval(Canon(pg.base, words)) IN
  IF t.ascii /\ ~Ascii(pg.adv) THEN <<"bad", <<"not ascii", pg.name>> >>
  ELSE IF a = b THEN <<"ok">>
  ELSE LET i == FirstDiff(a, b) IN <<"bad", <<"page", pg.name, i, Tok(a, i), Tok(b, i)>> >>

RECURSIVE Pages(_, _, _, _)
Pages(t, i, disp, words) == IF i > Len(t.pages) THEN <<"ok">>
                            ELSE LET v == TLCEval(PageVerdict(t, t.pages[i], disp, words)) IN
                                 IF v[1] = "ok" THEN Pages(t, i + 1, disp, words) ELSE v
(* every piece is displayed by some page *)
InPage(s, n) == \E i \in DOMAIN s : s[i] = 81 /\ StartsAt(s, i, OpenMark(n))
Missing(t) == {k \in DOMAIN t.leaves : t.leaves[k].shown /\ ~\E p \in DOMAIN t.pages : InPage(t.pages[p].base, k - 1)}

Verdict(t) ==
  CASE t.k = "hook" -> LET m == {i \in DOMAIN t.calls : ~HookOk(t.calls[i])} IN
                       IF m = {} THEN <<"ok", "">> ELSE <<"bad", <<"text hook", t.calls[CHOOSE i \in m : TRUE]>> >>
    [] t.k = "exc" -> <<"bad", t.what>>
    [] t.k = "pages" ->
         LET disp == TLCEval([k \in DOMAIN t.leaves |-> Display(t.leaves[k].kind, t.leaves[k].text)])
             words == TLCEval([k \in DOMAIN t.leaves |-> t.leaves[k].word])
             m == Missing(t)
             v == Pages(t, 1, disp, words)
         IN IF m # {} THEN <<"bad", <<"not displayed", {t.leaves[k].pos : k \in m}>> >>
            ELSE IF v[1] = "ok" THEN <<"ok", "">> ELSE v

Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ LET v == TLCEval(Verdict(Traces[tid])) IN
                 PrintT(<<"V", tid, IF v[1] = "ok" THEN "ok" ELSE "reject", v[2]>>) /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_vars
====
