------------------------------ MODULE MC_Args ------------------------------
(* Every invocation of a few signatures, and every numeric literal, up to a  *)
(* length: what is read does not depend on what follows (Frame), writing the *)
(* bound values down and reading them again gives the same (RoundTrip), signs *)
(* negate and decimal, octal, hexadecimal notations of a number agree.        *)
EXTENDS Args, Json, IOUtils, SequencesExt
CONSTANTS MaxS, MaxN, OutS, OutN
VARIABLES w, ts, n          \* w: which reader; ts: tokens; n: symbols
vars == <<w, ts, n>>
Mod(c) == [k |-> "mod", c |-> c]
Man(t) == [k |-> "man", t |-> t, d |-> "", sub |-> ""]
Opt(o, c, t) == [k |-> "opt", o |-> o, c |-> c, t |-> t, d |-> "", sub |-> ""]
Sigs == << <<Man("nox")>>, <<Mod("*"), Opt("[", "]", "nox"), Man("nox")>>, <<Opt("[", "]", "nox"), Opt("[", "]", "nox")>>,
           <<Man("nox"), Opt("[", "]", "nox")>>, <<Mod("*"), Man("nox"), Man("nox")>>, <<Opt("[", "]", "nox"), Mod("*")>> >>
SAlpha == {"a", "[", "]", "{", "}", "*", " "}
NAlpha == {<<"+">>, <<"-">>, <<" ">>, <<"1">>, <<"9">>, <<".">>, <<"'">>, <<"\"">>, <<"`">>, <<"A">>, <<"\\qca">>, <<"\\qda">>, <<"\\qsa">>, <<"\\qma">>,
           <<"\\qmb">>, <<"i", "n">>, <<"f", "i", "l">>, <<"p", "l", "u", "s">>, <<"m", "i", "n", "u", "s">>, <<"l">>, <<"t", "r", "u", "e">>, <<"e", "m">>, <<"m", "u">>}
Scans == <<"Number", "Dimen", "Glue", "MuGlue">>
Init == w \in 1..(Len(Sigs) + Len(Scans)) /\ ts = <<>> /\ n = 0
Next == /\ UNCHANGED w /\ n' = n + 1
        /\ IF w <= Len(Sigs) THEN n < MaxS /\ \E c \in SAlpha : ts' = Append(ts, c)
                             ELSE n < MaxN /\ \E c \in NAlpha : ts' = ts \o c
Spec == Init /\ [][Next]_vars
Sig == IF w <= Len(Sigs) THEN Sigs[w] ELSE <<Man(Scans[w - Len(Sigs)])>>
RECURSIVE Unparse(_, _)
Unparse(sig, b) == IF sig = <<>> THEN <<>>
   ELSE (IF b[1] = Nil THEN <<>>
         ELSE CASE sig[1].k = "mod" -> <<sig[1].c>>
                [] sig[1].k = "opt" -> <<sig[1].o>> \o b[1].s \o <<sig[1].c>>
                [] OTHER -> <<"{">> \o b[1].s \o <<"}">>) \o Unparse(Tail(sig), Tail(b))
Frame == LET x == Bind(Sig, ts, <<>>) IN
   x.ok => /\ w <= Len(Sigs) => (LET y == Bind(Sig, Append(ts, "z"), <<>>) IN y.ok /\ y.b = x.b /\ y.r = Append(x.r, "z"))
           /\ w > Len(Sigs) => (LET y == Bind(Sig, ts \o <<"\\relax", "1">>, <<>>) IN y.ok /\ y.b = x.b /\ XAll(y.r) = XAll(x.r) \o <<"\\relax", "1">>)
RoundTrip == w <= Len(Sigs) => LET x == Bind(Sig, ts, <<>>) IN
   x.ok => LET y == Bind(Sig, Unparse(Sig, x.b) \o <<"\\relax">>, <<>>) IN y.ok /\ y.b = x.b /\ y.r = <<"\\relax">>
\* what is left is an end of what was there
Suffix == w <= Len(Sigs) => LET x == Bind(Sig, ts, <<>>) IN
   x.ok => Len(x.r) <= Len(ts) /\ x.r = SubSeq(ts, Len(ts) - Len(x.r) + 1, Len(ts))
Minus == w > Len(Sigs) => LET x == Bind(Sig, ts, <<>>)  y == Bind(Sig, <<"-">> \o ts, <<>>)  z == Bind(Sig, <<"-", " ", "-">> \o ts, <<>>) IN
   x.ok => /\ y.ok /\ z.ok /\ z = x /\ y.r = x.r
           /\ LET a == x.b[1]  b == y.b[1] IN IF a.k = "glue" THEN b.w = -a.w ELSE b.v = -a.v
RECURSIVE Num2(_, _)
Num2(x, b) == IF x < b THEN <<Digits[x + 1]>> ELSE Num2(x \div b, b) \o <<Digits[(x % b) + 1]>>
ASSUME \A x \in (0..1100) \cup {4095, 65535, 70000} : /\ ScanInt(Num2(x, 10)).v = x
                                             /\ ScanInt(<<"'">> \o Num2(x, 8)).v = x
                                             /\ ScanInt(<<"\"">> \o Num2(x, 16)).v = x
ASSUME /\ Scaled(100, 0, "in") = Scaled(7227, 0, "pt")
       /\ \A x \in 0..30 : Scaled(12 * x, 0, "dd") = Scaled(x, 0, "cc") /\ Scaled(10 * x, 0, "mm") = Scaled(x, 0, "cm")
                           /\ Scaled(72 * x, 0, "bp") = Scaled(x, 0, "in") /\ Scaled(12 * x, 0, "pt") = Scaled(x, 0, "pc")
       /\ Scaled(254, 0, "cm") = Scaled(100, 0, "in") /\ Scaled(Pt, 0, "sp") = Scaled(1, 0, "pt")
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT,
  LET Strs(A, m) == LET L[i \in 0..m] == IF i = 0 THEN {<<>>} ELSE {s \o a : s \in L[i - 1], a \in A} IN UNION {L[i] : i \in 0..m}
      S1 == Strs({<<c>> : c \in SAlpha}, OutS)
      S2 == Strs(NAlpha, OutN)
  IN SetToSeq(UNION {{[sig |-> Sigs[i], toks |-> s] : s \in {s \in S1 : Bind(Sigs[i], s, <<>>).ok}} : i \in DOMAIN Sigs}
       \cup UNION {{[sig |-> <<Man(Scans[i])>>, toks |-> s] : s \in {s \in S2 : Bind(<<Man(Scans[i])>>, s, <<>>).ok}} : i \in DOMAIN Scans}))
=============================================================================
