----------------------------- MODULE Filenames -----------------------------
(* The filename generator: a list of static templates, then a wildcard with *)
(* alternatives. A template is a sequence of pieces                         *)
(*    [k |-> "lit", s |-> string]   [k |-> "var", s |-> name, w |-> width]  *)
(* (w = -1: no width).  Generator state (a record):                         *)
(*    queue  static templates not yet used     wild  alternatives           *)
(*    num    the next $num                     used  names never to be given*)
(*    vars   current bindings                  init  bindings to go back to *)
(*    conf   [ext, bad, rep]                                                *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Blanks == {" ", "\t", "\n"}

\* f of every character, concatenated
RECURSIVE Subst(_, _, _)
Subst(s, bad, rep) ==
  IF s = "" THEN "" ELSE (IF Ch(s, 1) \in bad THEN rep ELSE Ch(s, 1)) \o Subst(Tail(s), bad, rep)

\* the words of s
RECURSIVE Words(_, _)
Words(s, w) ==
  IF s = "" THEN (IF w = "" THEN <<>> ELSE <<w>>)
  ELSE IF Ch(s, 1) \in Blanks THEN (IF w = "" THEN Words(Tail(s), "") ELSE <<w>> \o Words(Tail(s), ""))
  ELSE Words(Tail(s), w \o Ch(s, 1))
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
Limit(s, n) == LET ws == Words(s, "") IN Join(IF Len(ws) > n THEN SubSeq(ws, 1, n) ELSE ws)

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit[n + 1] ELSE Dec(n \div 10) \o Digit[(n % 10) + 1]
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad("0" \o s, w)

\* a name has an extension when its last component has a dot after its
\* first character that is not a dot
RECURSIVE LastPos(_, _, _)
LastPos(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastPos(s, c, i - 1)
HasExt(s) ==
  LET base == SubSeq(s, LastPos(s, "/", Len(s)) + 1, Len(s))
      d == LastPos(base, ".", Len(base))
  IN d > 1 /\ \E i \in 1..(d - 1) : Ch(base, i) # "."
AddExt(s, ext) == IF HasExt(s) THEN s ELSE s \o ext

Numbered(t) == \E i \in DOMAIN t : t[i].k = "var" /\ t[i].s = "num"
Bound(t, vars) == \A i \in DOMAIN t : t[i].k = "var" => (t[i].s = "num" \/ t[i].s \in DOMAIN vars)
Piece(p, vars, num, conf) ==
  IF p.k = "lit" THEN p.s
  ELSE IF p.s = "num" THEN Pad(Dec(num), p.w)
  ELSE LET v == vars[p.s]
       IN Subst(IF p.w < 0 THEN v ELSE Limit(v, p.w), Chars(conf.bad), conf.rep)
RECURSIVE Pieces(_, _, _, _)
Pieces(t, vars, num, conf) ==
  IF t = <<>> THEN "" ELSE Piece(t[1], vars, num, conf) \o Pieces(Tail(t), vars, num, conf)
Name(t, vars, num, conf) == AddExt(Pieces(t, vars, num, conf), conf.ext)

Bind(f, k, v) == [f EXCEPT !.vars = [x \in DOMAIN f.vars \cup {k} |-> IF x = k THEN v ELSE f.vars[x]]]

\* what the k-th alternative (or static template) t does to the generator:
\* the candidate it forms is numbered, and taken or fresh
Advance(f, t) == IF Numbered(t) THEN [f EXCEPT !.num = f.num + 1] ELSE f
Issue(f, t) == LET n == Name(t, f.vars, f.num, f.conf)
               IN [Advance(f, t) EXCEPT !.used = @ \cup {n}, !.vars = f.init]
Fresh(f, t) == Bound(t, f.vars) /\ Name(t, f.vars, f.num, f.conf) \notin f.used

\* one request: <<next generator, "name" or "error", name>>
RECURSIVE Request(_), FromWild(_, _, _)
Request(f) ==
  IF f.queue # <<>> THEN
    LET t == f.queue[1]
        g == [f EXCEPT !.queue = Tail(@)]
    IN IF ~Bound(t, f.vars) THEN Request(g)
       ELSE IF Fresh(f, t) THEN <<Issue(g, t), "name", Name(t, f.vars, f.num, f.conf)>>
       ELSE Request(Advance(g, t))
  ELSE FromWild(f, 1, FALSE)
\* again: some numbered candidate of this round was skipped
FromWild(f, i, again) ==
  IF i > Len(f.wild) THEN (IF again THEN FromWild(f, 1, FALSE) ELSE <<f, "error", "">>)
  ELSE LET t == f.wild[i]
       IN IF ~Bound(t, f.vars) THEN FromWild(f, i + 1, again)
          ELSE IF Fresh(f, t) THEN <<Issue(f, t), "name", Name(t, f.vars, f.num, f.conf)>>
          ELSE FromWild(Advance(f, t), i + 1, again \/ Numbered(t))

\* the last template is the wildcard when there is no bracketed one
New(static, wild, conf, reserved, vars) ==
  LET implied == wild = <<>> /\ static # <<>>
  IN [queue |-> IF implied THEN SubSeq(static, 1, Len(static) - 1) ELSE static,
      wild |-> IF implied THEN <<static[Len(static)]>> ELSE wild,
      num |-> 1, used |-> reserved, vars |-> vars, init |-> vars, conf |-> conf]
=============================================================================
